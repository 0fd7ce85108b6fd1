// node vf/runner.mjs PID [--tier quick|thorough]: decide one property on /repo's current tree
import fs from "node:fs";
import path from "node:path";
import os from "node:os";
import { spawn } from "node:child_process";
import { ROOT, REPO, listContracts } from "./sym.mjs";
import { notApplicable } from "./avail.mjs";
const t0 = Date.now();
const pid = process.argv[2]; const ti = process.argv.indexOf("--tier"); const tier = ti > 0 ? process.argv[ti + 1] : process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const seed = Number.parseInt(process.env.VERIF_SEED ?? "1", 10) || 1;
const dir = path.join(ROOT, "props", pid); const only = process.env.VF_ONLY;
const DEADLINE = t0 + (tier === "quick" ? 780000 : 3000000); // everything ends before this
const SYM_BUDGET = tier === "quick" ? 420000 : 1500000;
const files = fs.readdirSync(dir).filter((f) => f.endsWith(".ts") && !f.startsWith("_")).sort().map((f) => path.join(dir, f));
const meta = fs.existsSync(path.join(dir, "meta.json")) ? JSON.parse(fs.readFileSync(path.join(dir, "meta.json"), "utf8")) : {};
const findings = fs.existsSync(path.join(ROOT, "known-findings.json")) ? JSON.parse(fs.readFileSync(path.join(ROOT, "known-findings.json"), "utf8")) : { findings: [] };
const GENERIC = JSON.parse(fs.readFileSync(path.join(ROOT, "vf", "assumptions.json"), "utf8"));

const pool = (n) => { let free = n; const q = []; const next = () => { while (free > 0 && q.length) { free--; const j = q.shift(); j(); } }; return (f) => new Promise((res, rej) => { q.push(() => f().then(res, rej).finally(() => { free++; next(); })); next(); }); };
const slots = pool(Math.max(2, Math.min(8, os.cpus().length)));
const child = (args, ms, env = {}, cancel = null) => new Promise((res) => {
  if (cancel?.done) return res({ error: "stopped: a failing input was found" });
  const p = spawn(process.execPath, ["--stack-size=8000", "--max-old-space-size=3000", ...args], { env: { ...process.env, ...env }, stdio: ["ignore", "pipe", "pipe"] }); let out = "", err = ""; let killed = false;
  p.stdout.on("data", (d) => { out += d; }); p.stderr.on("data", (d) => { if (err.length < 4000) err += d; });
  if (cancel) cancel.kill = () => p.kill("SIGKILL");
  const k = setTimeout(() => { killed = true; p.kill("SIGKILL"); }, Math.max(1000, ms));
  p.on("close", (code) => { clearTimeout(k); let j = null; try { j = JSON.parse(out.trim().split("\n").at(-1)); } catch { } res(j ?? { error: cancel?.done ? "stopped: a failing input was found" : killed ? "time limit reached" : "worker ended with code " + code + ": " + err.slice(0, 600) }); });
});
const left = () => DEADLINE - Date.now();

const tasks = [];
const skipped = [];
for (const f of files) { const cs = listContracts(f), na = notApplicable(f); cs.forEach((c, i) => { if (c.opts.tier === "thorough" && tier !== "thorough") return; if (only && !c.name.includes(only)) return; if (na[i]) { skipped.push({ contract: c.name, file: path.relative(ROOT, f), why: na[i] }); return; } tasks.push({ file: f, index: i, ...c }); }); }
for (const k of skipped) console.log(`not applicable to this tree: ${k.contract}: ${k.why}`);
if (tasks.length === 0 && skipped.length === 0) { console.error("no contracts for " + pid); process.exit(2); }

const run1 = async (t) => {
  const cancel = { done: false, kill: null };
  const [sym, con] = await Promise.all([
    t.opts.known ? null : slots(() => child([path.join(ROOT, "vf/sym.mjs"), t.file, String(t.index)], Math.min(left(), SYM_BUDGET + 60000), { VF_BUDGET_MS: String(Math.min(SYM_BUDGET, Math.max(10000, left() - 120000))) }, cancel)),
    slots(() => child([path.join(ROOT, "vf/cworker.mjs"), t.file, String(t.index), JSON.stringify({ seed: String(seed), iters: tier === "quick" ? 500 : 5000, ms: tier === "quick" ? 6000 : 60000 })], 90000)).then((r) => { if (r.failure) { cancel.done = true; cancel.kill?.(); } return r; }),
  ]);
  t.sym = sym; t.con = con; t.problems = [];
  if (con.error) t.problems.push({ kind: "concrete", what: con.error });
  if (con.failure) t.failure = con.failure;
  if (sym) {
    if (sym.error) t.problems.push({ kind: "verifier", what: sym.error });
    for (const o of sym.obligations ?? []) if (o.failedCount > 0) t.problems.push({ kind: "obligation", what: o.label, result: o.failed.map((f) => f.res).join(","), failed: o.failed });
    if (!sym.error) for (const l of t.labels) if (!(sym.obligations ?? []).some((o) => o.label === t.name + ": " + l && o.checked > 0)) t.problems.push({ kind: "vacuous", what: t.name + ": " + l + " is never reached" });
    if (t.problems.length && !t.failure && !t.opts.known) { // look harder for a failing input
      const envs = []; for (const p of t.problems) for (const f of p.failed ?? []) if (f.model) envs.push(f.model);
      const n = 4; const rs = await Promise.all(Array.from({ length: n }, (_, k) => slots(() => child([path.join(ROOT, "vf/cworker.mjs"), t.file, String(t.index), JSON.stringify({ seed: seed + "/x" + k, iters: 1e9, ms: Math.min(left() - 30000, tier === "quick" ? 25000 : 120000), envs: k === 0 ? envs.slice(0, 40) : [] })], 200000))));
      t.failure = rs.map((r) => r.failure).find(Boolean) ?? null; t.extra = rs.reduce((a, r) => a + (r.ran ?? 0), 0);
    }
  }
};
await Promise.all(tasks.map(run1));

const replayDir = path.join(ROOT, "evidence", "replay"); fs.mkdirSync(replayDir, { recursive: true });
for (const f of fs.readdirSync(replayDir)) if (f.startsWith(pid + "-")) fs.unlinkSync(path.join(replayDir, f));
let violations = 0; const lines = []; if (tasks.length === 0) { violations = 1; fs.writeFileSync(path.join(replayDir, pid + "-1.json"), JSON.stringify({ property: pid, obligation: "no contract applies to this tree", skipped }, null, 1)); lines.push(`VIOLATION property=${pid} replay=evidence/replay/${pid}-1.json no-failing-input-found`); } let broken = null;
for (const t of tasks) {
  if (t.opts.known) {
    if (t.con.error) { broken = t.con.error; continue; }
    const listed = findings.findings.find((k) => k.property === pid && k.contract === t.name);
    if (t.failure && listed) { lines.push(`KNOWN-FINDING: property=${pid} ${listed.what}`); continue; }
    if (!t.failure) continue;
  }
  if (!t.failure && t.problems.length === 0) continue;
  violations++; const rp = path.join(replayDir, `${pid}-${violations}.json`);
  const rep = { property: pid, contract_file: path.relative(ROOT, t.file), contract: t.name, obligation: t.failure ? `${t.name}: ${t.failure.label}` : t.problems.map((p) => p.what), failing_input: t.failure ? t.failure.inputs : null, seed: t.failure?.seed, env: t.failure?.env ?? null, detail: t.failure?.detail, verifier: t.problems.map((p) => ({ kind: p.kind, what: p.what, result: p.result, failed: (p.failed ?? []).slice(0, 2) })), how_to_replay: "node vf/replay.mjs " + path.relative(ROOT, rp) };
  fs.writeFileSync(rp, JSON.stringify(rep, null, 1));
  const first = t.failure ? `${t.name}: ${t.failure.label} -- ${(t.failure.detail ?? "").split("\n")[0]} input ${JSON.stringify(t.failure.inputs).slice(0, 300)}` : t.problems.map((p) => p.kind + ": " + p.what).join("; ").slice(0, 500);
  console.log(first.replace(/\n/g, " "));
  lines.push(`VIOLATION property=${pid} replay=${path.relative(ROOT, rp)}${t.failure ? "" : " no-failing-input-found"}`);
}
// evidence
const proved = tasks.filter((t) => !t.opts.known && t.sym); let obligations = 0, discharged = 0, bObl = 0, bDis = 0; const by = {}, funcs = new Set(), solver = {}; let paths = 0;
const contracts = [];
for (const t of proved) {
  let o1 = 0, d1 = 0; for (const o of t.sym.obligations ?? []) { o1 += o.checked; d1 += o.proved; for (const [k, n] of Object.entries(o.by)) by[k] = (by[k] ?? 0) + n; }
  if (t.opts.bound !== undefined || t.opts.bounded) { bObl += o1; bDis += d1; } else { obligations += o1; discharged += d1; }
  for (const f of t.sym.functions ?? []) funcs.add(f); paths += t.sym.paths ?? 0;
  for (const [k, v] of Object.entries(t.sym.stats?.by ?? {})) { const s = (solver[k] ??= { queries: 0, ms: 0, unsat: 0, sat: 0, unknown: 0 }); for (const f of Object.keys(s)) s[f] += Math.round(v[f] ?? 0); }
  contracts.push({ contract: t.name, file: path.relative(ROOT, t.file), paths: t.sym.paths, obligations: o1, discharged: d1, bounded: t.opts.bound !== undefined ? `input size at most ${t.opts.bound}` : t.opts.bounded ?? undefined, ms: t.sym.ms, concrete_runs: t.con?.ran ?? 0 });
}
const ev = {
  property: pid, tier, seed, level: meta.level ?? "proof",
  coverage: { obligations, discharged, checker_cmd: `node vf/runner.mjs ${pid} --tier ${tier}`, trusted_base: [...GENERIC.trusted, ...(meta.trusted ?? [])], functions_under_contract: [...funcs].sort(), contracts, not_applicable_to_this_tree: skipped, paths, discharged_by: by, solvers: solver, bounded_obligations: bObl, bounded_discharged: bDis, concrete_cross_check_runs: tasks.reduce((a, t) => a + (t.con?.ran ?? 0) + (t.extra ?? 0), 0) },
  assumptions: [...GENERIC.assumptions, ...(meta.assumptions ?? [])], wall_s: Math.round((Date.now() - t0) / 100) / 10, violations,
};
fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true }); fs.writeFileSync(path.join(ROOT, "evidence", pid + ".json"), JSON.stringify(ev, null, 1) + "\n");
for (const l of lines) console.log(l);
if (broken) { console.error("check error: " + broken); process.exit(2); }
console.log(`${pid}: ${discharged}/${obligations} obligations discharged${bObl ? `, bounded ${bDis}/${bObl}` : ""}, ${tasks.length} contracts, ${paths} paths, ${ev.wall_s} s`);
process.exit(violations ? 1 : 0);
