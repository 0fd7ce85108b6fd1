// node vf/replay.mjs REPLAY.json : run the recorded failing input again on the current tree (exit 1 when it still fails)
import fs from "node:fs";
import path from "node:path";
import { ROOT } from "./sym.mjs";
import { makeRunner } from "./concrete.mjs";
const r = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
if (!r.failing_input) { console.log("no failing input recorded; the failed obligation was:", JSON.stringify(r.obligation, null, 1)); process.exit(2); }
const run = await makeRunner(path.join(ROOT, r.contract_file)); const i = run.names.findIndex((n) => n.name === r.contract);
const o = await run.run(i, r.seed, r.env ?? undefined);
console.log(o.status, o.label ?? "", o.detail ?? ""); console.log(JSON.stringify(o.inputs, null, 1));
process.exit(o.status === "fail" ? 1 : 0);
