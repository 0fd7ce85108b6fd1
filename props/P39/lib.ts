import { commands } from "child_process";
// One git repository as its commands tell it. Words of a state: sha of HEAD (or null), branch (null: no repository), sym and remote (origin's default branch, as git knows it and as origin says), bases (what each remote branch shares with HEAD), dirty, untracked (above: those that are not under the directory), stash, diff.
export const failed = (cmd) => { const e = new Error("Command failed: " + cmd + "\nfatal: no"); e.code = 128; return { error: e, stdout: "", stderr: "fatal: no" }; };
export const git = (s) => {
  const r = { calls: [], cwds: new Set(), diffs: [] };
  commands.answer = (cmd, { argv, cwd }) => {
    const out = (stdout) => ({ error: null, stdout, stderr: "" }), line = (x) => (x === null || x === undefined ? failed(cmd) : out(x + "\n"));
    if (s.branch === "no git") { const e = new Error("spawn git ENOENT"); e.code = "ENOENT"; return { error: e, stdout: "", stderr: "" }; }
    if (argv[0] !== "git" || s.branch === null) return failed(cmd);
    r.calls.push(argv.slice(1).join(" ")); r.cwds.add(cwd);
    const [what, ...args] = argv.slice(1), has = (x) => args.includes(x);
    if (what === "rev-parse") return line(has("--abbrev-ref") ? s.branch : s.head);
    if (what === "fetch") return { ...(s.offline ? failed(cmd) : out("")), turns: 40, done: () => { r.fetched = r.fetched ?? r.calls.length; } };
    if (what === "symbolic-ref") return line(s.sym === null || s.sym === undefined ? null : (has("--short") ? "" : "refs/remotes/") + "origin/" + s.sym);
    if (what === "remote") return s.remote === undefined ? failed(cmd) : out("* remote origin\n  Fetch URL: x\n  HEAD branch: " + (s.remote ?? "(unknown)") + "\n  Remote branches:\n    HEAD branch tracked\n");
    if (what === "merge-base") { r.based = r.based ?? r.calls.length; return args[1] === "HEAD" || args[1] === s.head ? line(s.bases[args[0]]) : failed(cmd); }
    if (what === "status") return out(s.dirty ? (s.dirty === "much" ? " M some/file\n".repeat(100000) : " M f\n") : "");
    if (what === "ls-files") return out([...(s.untracked ?? []), ...(args.some((x) => /^:(\/|\(top\))$/.test(x)) ? s.above ?? [] : [])].map((f) => f + "\n").join(""));
    if (what === "stash") return args[0] === "create" ? (s.stash === "fails" ? failed(cmd) : out(s.stash ? s.stash + "\n" : "")) : failed(cmd);
    if (what === "diff") { r.diffs.push(args); return s.diff === null ? failed(cmd) : out(s.diff); }
    if (what === "show") return line(s.date === null || has("--format=%cI") ? s.date : "commit " + s.head + "\nAuthor: a\n\n    text\n\ndiff --git");
    return failed(cmd);
  };
  return r;
};
export const still = (g) => { g.setGlobal("console", { log() {}, error() {}, warn() {}, info() {}, debug() {}, trace() {} }); };
// what the local work is compared with
export const base = (s) => {
  const d = s.sym ?? s.remote ?? null, names = d === null ? ["main", "master"] : [d];
  if (s.branch === null) return null;
  if (s.branch === "HEAD" || names.includes(s.branch)) return s.head;
  for (const b of [...(d === null ? [] : ["origin/" + d]), "origin/main", "origin/master"]) if (s.bases[b]) return s.bases[b];
  return null;
};
export const H = "a".repeat(40), B = "b".repeat(40), S = "5".repeat(40);
