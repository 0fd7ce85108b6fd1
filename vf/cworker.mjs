// concrete search for one contract: node cworker.mjs FILE INDEX JSON-OPTIONS
import path from "node:path";
import { makeRunner, search } from "./concrete.mjs";
const [file, idx, opts] = process.argv.slice(2);
const o = JSON.parse(opts ?? "{}");
try {
  const r = await makeRunner(path.resolve(file));
  const s = await search(r, Number(idx), { seed: o.seed ?? "1", iters: o.iters ?? 400, ms: o.ms ?? 5000, envs: o.envs ?? [] });
  process.stdout.write(JSON.stringify({ ran: s.ran, rejected: s.rejected, seen: [...s.seen], failure: s.failure ? { label: s.failure.label, detail: s.failure.detail, inputs: s.failure.inputs, seed: s.failure.seed, env: s.failure.env } : null }, (k, v) => (typeof v === "bigint" ? v.toString() : v)) + "\n");
} catch (e) { process.stdout.write(JSON.stringify({ error: String(e?.stack ?? e).slice(0, 1500) }) + "\n"); }
process.exit(0);
