// commands are recorded, none is run; a contract may say how one ends
export const commands = { list: [], answer: (_cmd, _how) => ({ stdout: "", stderr: "", error: null }), sync: (_file, _args, _o) => ({ status: 0, stdout: "", stderr: "" }) };
// An answer may take turns of its own, and say when it is there (done).
// node ends a command that writes more than it was told to keep (a megabyte, unless told otherwise)
const ended = (cmd, argv, o) => {
  commands.list.push(cmd); const a = commands.answer(cmd, { argv, cwd: o?.cwd, env: o?.env }), limit = o?.maxBuffer ?? 1048576;
  if (limit !== Infinity && a.error === null && a.stdout.length > limit) { const e = new RangeError("stdout maxBuffer length exceeded"); e.code = "ERR_CHILD_PROCESS_STDIO_MAXBUFFER"; return { error: e, stdout: a.stdout.slice(0, limit), stderr: "" }; }
  return a;
};
const run = (cmd, argv, o, cb) => { if (typeof o === "function") { cb = o; o = {}; } const a = ended(cmd, argv, o); if (cb !== undefined || a.done !== undefined) (async () => { await undefined; for (let i = 0; i < (a.turns ?? 0); i++) await undefined; if (a.done !== undefined) a.done(); if (cb !== undefined) cb(a.error, a.stdout, a.stderr); })(); return { on() { return this; }, unref() {}, stdin: { end() {} } }; };
export const exec = (cmd, o, cb) => run(cmd, cmd.split(" "), o, cb);
export const execFile = (f, args, o, cb) => { if (!Array.isArray(args)) { cb = o; o = args; args = []; } const argv = [f, ...args]; return run(argv.join(" "), argv, o, cb); };
const now = (cmd, argv, o) => { const a = ended(cmd, argv, o); if (a.done !== undefined) a.done(); if (a.error) throw a.error; return a.stdout; };
export const execSync = (cmd, o) => now(cmd, cmd.split(" "), o);
export const execFileSync = (f, args, o) => now([f, ...(args ?? [])].join(" "), [f, ...(args ?? [])], o);
export const spawn = (f, args) => { commands.list.push([f, ...(args ?? [])].join(" ")); return { on() { return this; }, unref() {}, stdout: null, stderr: null }; };
export const spawnSync = (f, args, o) => { commands.list.push([f, ...(args ?? [])].join(" ")); return commands.sync(f, args ?? [], o ?? {}); };
