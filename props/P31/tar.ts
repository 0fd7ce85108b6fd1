import { contract } from "vf";
import { disk } from "fs";
import { net } from "axios";
import { source } from "stream";
import { made } from "fast-zlib";
import { streamDownloadAndExtractTar, streamDownloadAndExtractTarGz, streamDownloadAndInflateTar } from "repo:downloading-helpers/src/file-downloads/download-file";

const URL0 = "https://s3.test/blob", OUT = "/d/out", TAR = "/d/x/y.tar";
// Timers: those of a minute or more are the deadlines, which pass only when the contract says so; the others end at once
const clock = (g) => { const c = { waits: [], deadlines: new Map(), n: 0, pass() { for (const [k, t] of [...c.deadlines]) { c.deadlines.delete(k); t.f(); } } };
  g.setGlobal("setTimeout", (f, ms) => { const k = ++c.n; if (ms >= 60000) c.deadlines.set(k, { f, ms }); else { c.waits.push(ms); Promise.resolve().then(f); } return k; }); g.setGlobal("clearTimeout", (k) => { c.deadlines.delete(k); });
  return c; };
const soon = (f, n) => { Promise.resolve().then(async () => { for (let i = 0; i < n; i++) await undefined; f(); }); };
const packed = (how, entries, text) => ({ length: 4, packed: how, inner: { length: entries.length === 0 && text === undefined ? 0 : 10, text: text ?? "", entries } });
const file = (path, chunks, mode) => ({ path, type: "File", mode, chunks: chunks.map((t) => Buffer.from(t)) });
const tree = (below) => [...disk.files.keys()].filter((p) => p.startsWith(below + "/")).sort();
const get = (kind, opts) => (kind === "gzip" ? streamDownloadAndExtractTarGz(URL0, OUT, opts) : streamDownloadAndExtractTar(URL0, OUT, opts));

contract("an archive arrives whole", { bounded: "up to 4 entries in 3 pieces, up to 3 writes at a time" }, async (g) => {
  const c = clock(g), kind = g.choose("packed", ["raw", "gzip"]), writers = g.choose("writers", [undefined, 1, 2, 3]), a = g.string("a"), b = g.string("b"), d = g.string("d");
  disk.put("/d/kept", "kept"); if (g.bool("there before")) disk.put(OUT + "/old", "old");
  net.answer = () => ({ data: source([packed(kind, [file("index.html", [a, b], 0o600), { path: "dir/", type: "Directory", mode: 0o755, chunks: [] }]), packed(kind, []), packed(kind, [file("dir/sub/x.js", [d], 0), file("e", [])])], "ends"), headers: {} });
  let active = 0, most = 0; disk.waits = (op, p) => (op === "write" && p.startsWith(OUT) ? (async () => { active += 1; most = Math.max(most, active); for (let i = 0; i < 6; i++) await undefined; active -= 1; })() : undefined);
  const r = await get(kind, writers === undefined ? undefined : { extractConcurrency: writers });
  g.ensure("what was written is said", r.slice().sort().join() === "dir/,dir/sub/x.js,e,index.html");
  g.ensure("every file is there when it says so", disk.text(OUT + "/index.html") === a + b && disk.text(OUT + "/dir/sub/x.js") === d && disk.text(OUT + "/e") === "" && disk.dirs.has(OUT + "/dir"));
  g.ensure("as the archive has it", disk.mode(OUT + "/index.html") === 0o600);
  g.ensure("never more at a time than asked for", most <= Math.max(1, writers ?? 1));
  g.ensure("nothing else is written", tree("/d").every((p) => p === "/d/kept" || p === OUT + "/old" || ["index.html", "dir/sub/x.js", "e"].some((n) => p === OUT + "/" + n)) && disk.text("/d/kept") === "kept");
  g.ensure("one request for it", net.calls.length === 1 && net.calls[0].url === URL0 && net.calls[0].responseType === "stream" && net.calls[0].timeout > 0);
  g.ensure("nothing is left behind", c.deadlines.size === 0 && made.open === 0);
});
contract("a failing archive leaves nothing and is tried again", { bounded: "up to 4 attempts" }, async (g) => {
  const c = clock(g), kind = g.choose("packed", ["raw", "gzip"]), writers = g.choose("writers", [1, 2]), max = g.choose("retries", [0, 1, 2, 3]), fails = g.choose("failures", [0, 1, 2, 3, 4]), how = g.choose("how", ["stalls", "breaks", "bad archive", "disk", "refused", "other packing"]), delay = g.int("delay", 0, 5000), a = g.string("a"), total = g.choose("deadline", [60000, 3600000]);
  disk.put(OUT + "/old", "old"); disk.put("/d/kept", "kept"); let n = 0; const at = [], errs = [];
  net.answer = () => { const k = n++; at.push(tree(OUT).length); const bad = k < fails; const e = new Error("failure " + k); errs.push(e); if (bad && how === "stalls") soon(() => c.pass(), 30); if (bad && how === "refused") return { error: e };
    const as = bad && how === "other packing" ? (kind === "raw" ? "gzip" : "raw") : kind;
    return { data: source([packed(as, [file("one", ["1"])]), packed(as, bad && how === "bad archive" ? [{ bad: e }] : [file("two/a", [a])])], bad && how === "stalls" ? "stalls" : bad && how === "breaks" ? e : "ends"), headers: {} }; };
  disk.fails = (op, p) => how === "disk" && op === "write" && n <= fails && p === OUT + "/two/a";
  const r = await g.attemptAsync(() => get(kind, { extractConcurrency: writers, maxRetries: max, retryDelay: delay, totalTimeoutInMs: total, firstDataTimeoutInMs: 70001 }));
  g.ensure("it succeeds exactly when an attempt does", r.ok === fails <= max);
  g.ensure("as often as allowed", n === Math.min(fails, max) + 1);
  g.ensure("each attempt starts from nothing", at.every((t, i) => t === (i === 0 ? 1 : 0)));
  g.ensure("whole, or not there at all", fails <= max ? disk.text(OUT + "/one") === "1" && disk.text(OUT + "/two/a") === a : tree(OUT).length === 0 && !disk.dirs.has(OUT));
  g.ensure("only what the last attempt wrote is said", !r.ok || r.value.slice().sort().join() === "one,two/a");
  g.ensure("after the delay asked for", c.waits.length === n - 1 && c.waits.every((w) => w === delay));
  g.ensure("the failure is the last one", r.ok || (how === "disk" ? r.error.code === "EIO" : how === "stalls" ? r.error.message.includes(String(total)) : how === "other packing" ? r.error.name !== "AbortError" : r.error === errs[n - 1]));
  g.ensure("each request within the given time", net.calls.every((q) => q.timeout === 70001));
  g.ensure("nothing is left behind", c.deadlines.size === 0 && made.open === 0 && disk.text("/d/kept") === "kept");
});
contract("no entry leads outside", { bounded: "the listed names" }, async (g) => {
  clock(g); const writers = g.choose("writers", [1, 2]), name = g.choose("name", ["../up", "../../up", "a/../../up", "/abs/x", "..", ".", "", "../out2/x", "../out/x", "a/../b", "..name", "..dir/x", "...", "a/..b"]), type = g.choose("type", ["File", "OldFile", "ContiguousFile", "Directory"]);
  disk.put("/d/kept", "kept"); net.answer = () => ({ data: source([packed("raw", [{ path: name, type, mode: 0o644, chunks: type === "Directory" ? [] : [Buffer.from("x")] }, file("last", ["y"])])], "ends"), headers: {} });
  const r = await g.attemptAsync(() => get("raw", { extractConcurrency: writers, maxRetries: 0 }));
  g.ensure("nothing is written elsewhere", [...disk.files.keys()].every((p) => p === "/d/kept" || p.startsWith(OUT + "/")) && [...disk.dirs].every((p) => ["/", "/cwd", "/home", "/tmp", "/d", OUT].includes(p) || p.startsWith(OUT + "/")));
  const to = { "a/../b": "b", "..name": "..name", "..dir/x": "..dir/x", "...": "...", "a/..b": "a/..b" }[name];
  if (writers === 2) {
    g.ensure("the rest is there", r.ok && disk.text(OUT + "/last") === "y");
    g.ensure("what was written is said", r.value.includes(name) === (to !== undefined) || name === "../out/x");
    if (to !== undefined) g.ensure("what leads inside is there", type === "Directory" ? disk.dirs.has(OUT + "/" + to) : disk.text(OUT + "/" + to) === "x");
  }
});
contract("what is no file is passed over", { bounded: "the listed kinds" }, async (g) => {
  clock(g); const type = g.choose("type", ["SymbolicLink", "Link", "CharacterDevice", "FIFO", "ExtendedHeader"]); net.answer = () => ({ data: source([packed("raw", [{ path: "l", type, mode: 0o777, chunks: [] }, file("last", ["y"])])], "ends"), headers: {} });
  const r = await get("raw", { extractConcurrency: 2 });
  g.ensure("neither written nor said", r.join() === "last" && tree(OUT).join() === OUT + "/last");
});
contract("files of one new directory written together", { bounded: "three files, up to three writes at a time" }, async (g) => {
  clock(g); const writers = g.choose("writers", [2, 3]), slow = g.choose("slow", [1, 3, 12]), a = g.string("a");
  net.answer = () => ({ data: source([packed("raw", [file("n/x/1", [a]), file("n/x/2", ["2"]), file("n/3", ["3"])])], "ends"), headers: {} });
  disk.waits = (op) => (op === "mkdir" ? (async () => { for (let i = 0; i < slow; i++) await undefined; })() : undefined);
  const r = await get("raw", { extractConcurrency: writers, maxRetries: 0 });
  g.ensure("all are there", r.length === 3 && disk.text(OUT + "/n/x/1") === a && disk.text(OUT + "/n/x/2") === "2" && disk.text(OUT + "/n/3") === "3");
});
contract("writes that never end", {}, async (g) => {
  const c = clock(g), which = g.choose("which", ["last", "all"]), max = g.choose("retries", [0, 1]); let n = 0;
  net.answer = () => { n += 1; soon(() => c.pass(), 60); return { data: source([packed("raw", [file("one", ["1"]), file("two", ["2"])])], "ends"), headers: {} }; };
  disk.waits = (op, p) => (op === "write" && (which === "all" || p === OUT + "/two") ? new Promise(() => {}) : undefined);
  const r = await g.attemptAsync(() => get("raw", { extractConcurrency: 3, maxRetries: max, totalTimeoutInMs: 61000 }));
  g.ensure("end with the deadline", !r.ok && r.error.message.includes("61000") && n === max + 1);
  g.ensure("and leave nothing", tree(OUT).length === 0 && c.deadlines.size === 0);
});
contract("one failing write fails the whole", { bounded: "four files, one at a time to all at once" }, async (g) => {
  clock(g); const writers = g.choose("writers", [2, 4, 9]), bad = g.choose("bad", ["a", "b", "c", "d/d"]), op0 = g.choose("what", ["write", "mkdir"]); g.assume(op0 === "write" || bad === "d/d");
  net.answer = () => ({ data: source([packed("raw", [file("a", ["1"]), file("b", ["2"]), file("c", ["3"]), file("d/d", ["4"])])], "ends"), headers: {} });
  disk.fails = (op, p) => op === op0 && p === OUT + "/" + (op0 === "write" ? bad : "d");
  disk.waits = (op, p) => (op === "write" && p === OUT + "/a" ? (async () => { for (let i = 0; i < 40; i++) await undefined; })() : undefined);
  const r = await g.attemptAsync(() => get("raw", { extractConcurrency: writers, maxRetries: 0 }));
  g.ensure("so", !r.ok && r.error.code === "EIO");
  g.ensure("and nothing stays", tree(OUT).length === 0);
});
contract("an archive is unpacked into a tar file", { bounded: "up to 3 pieces, up to 3 attempts" }, async (g) => {
  const c = clock(g), max = g.choose("retries", [0, 1, 2]), fails = g.choose("failures", [0, 1, 2, 3]), how = g.choose("how", ["stalls", "breaks", "disk", "other packing"]), n3 = g.choose("pieces", [0, 1, 3]), delay = g.int("delay", 0, 5000), t = g.string("t"); let n = 0; const at = [], err = new Error("reset");
  disk.put("/d/x/other", "kept");
  net.answer = () => { const bad = n++ < fails; at.push(disk.text(TAR)); if (bad && how === "stalls") soon(() => c.pass(), 30); const as = bad && how === "other packing" ? "gzip" : "raw"; return { data: source([0, 1, 2].slice(0, bad ? 3 : n3).map((i) => packed(as, [], t + i)), bad && how === "stalls" ? "stalls" : bad && how === "breaks" ? err : "ends"), headers: {} }; };
  disk.fails = (op, p) => how === "disk" && op === "write" && n <= fails && p === TAR && disk.text(TAR) !== undefined && disk.text(TAR) !== "";
  const r = await g.attemptAsync(() => streamDownloadAndInflateTar(URL0, TAR, { maxRetries: max, retryDelay: delay, totalTimeoutInMs: 60001, firstDataTimeoutInMs: 70001 }));
  g.ensure("it succeeds exactly when an attempt does", r.ok === fails <= max && n === Math.min(fails, max) + 1);
  g.ensure("whole, or not there at all", disk.text(TAR) === (fails <= max ? [0, 1, 2].slice(0, n3).map((i) => t + i).join("") : undefined));
  g.ensure("each attempt starts from nothing", at.every((x) => x === undefined));
  g.ensure("its size is that of this attempt", !r.ok || (r.value.compressedBytes === 4 * n3 && r.value.inflatedBytes === 10 * n3 && r.value.inflateMs >= 0));
  g.ensure("after the delay asked for", c.waits.length === n - 1 && c.waits.every((w) => w === delay));
  g.ensure("the failure is the last one", r.ok || (how === "stalls" ? r.error.message.includes("60001") : how === "disk" ? r.error.code === "EIO" : how === "breaks" ? r.error === err : r.error.name !== "AbortError"));
  g.ensure("nothing is left behind", c.deadlines.size === 0 && made.open === 0 && disk.text("/d/x/other") === "kept");
});
