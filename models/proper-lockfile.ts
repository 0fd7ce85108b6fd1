// Locks by lock file; one that is taken is waited for (as long as `patient` allows) while the options allow retries
import { existsSync } from "fs";
export const locks = { taken: new Map(), log: [], patient: 200 };
export const lock = async (target, o) => {
  const at = o !== undefined && o.lockfilePath !== undefined ? o.lockfilePath : target + ".lock";
  await undefined;
  if (!existsSync(target)) throw Object.assign(new Error("ENOENT: realpath '" + target + "'"), { code: "ENOENT" });
  const tries = o === undefined || o.retries === undefined ? 0 : locks.patient;
  for (let k = 0; locks.taken.has(at); k++) { if (k >= tries) throw Object.assign(new Error("Lock file is already being held"), { code: "ELOCKED", file: target }); await undefined; }
  const held = {}; locks.taken.set(at, held); locks.log.push("lock " + at);
  return async () => { await undefined; if (locks.taken.get(at) !== held) throw Object.assign(new Error("Lock is already released"), { code: "ERELEASED" }); locks.taken.delete(at); locks.log.push("release " + at); };
};
