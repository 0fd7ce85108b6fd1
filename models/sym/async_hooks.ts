// AsyncLocalStorage: the store follows the continuations registered while it was current
import { alsRun, alsGet } from "vf-prim";
export class AsyncLocalStorage {
  run(store, f, ...args) { return alsRun(this, store, f, ...args); }
  exit(f, ...args) { return alsRun(this, undefined, f, ...args); }
  getStore() { return alsGet(this); }
}
