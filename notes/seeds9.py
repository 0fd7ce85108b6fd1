from plant import plant as plant0
import glob,shutil,os
def plant(id,*a):
    plant0(id,*a)
    d=f"/verif/seeded/{id}/"
    if os.path.isdir(d):
        for f in glob.glob("/verif/notes/stubs/*"): shutil.copy(f,d)
        open(d+"own.txt","w").write("the repository's own packages are bundled from their source\n")
A='import assert from "assert";\nimport fs from "fs";\nimport path from "path";\nimport os from "os";\n'
R="recorder-loader/src/"; W="debug-workspace/src/"; G=W+"generate-debug-workspace"; C="cli/src/commands/debug/"
PAGE=A+'''const page = () => { const added: any[] = [], timers: any[] = []; const win: any = { clearTimeout() {}, location: { href: "https://a.test/" } }; Object.assign(globalThis, { window: win, document: { head: { appendChild: (s: any) => { added.push(s); return s; } }, createElement: () => ({}) } }); const real = globalThis.setTimeout; (globalThis as any).setTimeout = (f: any) => { timers.push(f); return timers.length; };
return { win, added, timers, end() { globalThis.setTimeout = real; } }; };
console.debug = () => {};
'''
BOX=A+'''const box = fs.mkdtempSync(path.join(os.tmpdir(), "seed-")), WS = path.join(box, "ws"), S = "s3cret"; const put = (f: string, v: any) => { const p = path.join(WS, "debug-data", f); fs.mkdirSync(path.dirname(p), { recursive: true }); fs.writeFileSync(p, typeof v === "string" ? v : JSON.stringify(v)); }; const has = (f: string) => fs.existsSync(path.join(WS, "debug-data", f)), read = (f: string) => fs.readFileSync(path.join(WS, "debug-data", f), "utf8"); const end = () => fs.rmSync(box, { recursive: true, force: true }); const context: any = { replayDiffs: [], replayIds: [], sessionIds: [], orgAndProject: "o/p" }; const log = console.log; console.log = () => {}; console.warn = () => {};
'''
plant("s91-late-start","P40",[(R+"loader.ts","        abandoned = true;\n","        abandoned = maxMsToBlockFor_ !== undefined;\n")],"no limit given, and a script that comes after the usual one","it records although the page was told it does not, and cannot be stopped",PAGE+'import { tryLoadAndStartRecorder } from "repo:'+R+'''loader";
export const done = (async () => { for (const limit of [50, undefined]) { const p = page(); let started = 0; p.win.__meticulous = { initialiseRecorder: () => { started += 1; } }; const got = tryLoadAndStartRecorder({ projectId: "p", isProduction: false, maxMsToBlockFor: limit } as any); p.timers[0](); await got; p.added[0].onload(); p.end(); assert.equal(started, 0, String(limit)); } })();''')
plant("s92-not-false","P40",[(R+"loader.ts","    if (forceRecording !== undefined) {\n","    if (forceRecording) {\n")],"a page that asked for recording to be forced once, and not the next time","it is still forced",PAGE+'import { tryLoadAndStartRecorder } from "repo:'+R+'''loader";
export const done = (async () => { const p = page(); const go = (forceRecording: boolean) => tryLoadAndStartRecorder({ projectId: "p", isProduction: false, forceRecording } as any); void go(true); assert.equal(p.win.METICULOUS_FORCE_RECORDING, true); void go(false); p.end(); assert.equal(p.win.METICULOUS_FORCE_RECORDING, false); })();''')
plant("s93-failed-late","P40",[(R+"install-meticulous-intercepts.ts","    disposeFunction && !disposedEarlyNetworkRecorder) {\n      await disposeFunction();\n      disposedEarlyNetworkRecorder = true;\n","") ] if False else [(R+"install-meticulous-intercepts.ts","""      ?.earlyNetworkRecorder?.dispose;
    if (disposeFunction && !disposedEarlyNetworkRecorder) {
      await disposeFunction();
      disposedEarlyNetworkRecorder = true;
""","""      ?.earlyNetworkRecorder?.dispose;
    if (disposedEarlyNetworkRecorder) {
      return;
    }
    disposedEarlyNetworkRecorder = true;
    if (disposeFunction) {
      await disposeFunction();
""")],"stopping once before the interception is there, and again when it is","it is never stopped",PAGE+'import { tryInstallMeticulousIntercepts } from "repo:'+R+'''install-meticulous-intercepts";
export const done = (async () => { const p = page(); let stopped = 0; const got = tryInstallMeticulousIntercepts({}); p.timers[0](); const i = await got; await i.stopIntercepting(); p.win.__meticulous = { earlyNetworkRecorder: { dispose: async () => { stopped += 1; } } }; p.added[0].onload(); await i.stopIntercepting(); p.end(); assert.ok(stopped > 0); })();''')
plant("s94-strings","P41",[(G+".ts","""  if (item !== null && typeof item === "object" && "value" in item) {
    return {
""","""  if (
    item !== null &&
    typeof item === "object" &&
    "value" in item &&
    typeof item.value === "string"
  ) {
    return {
""")],"a stored value that is no text","it is kept",BOX+'import { redactCookiesAndHeadersInJson } from "repo:'+G+'''";
export const done = (() => { const r = (value: any) => JSON.stringify(redactCookiesAndHeadersInJson({ headers: [{ name: "Set-Cookie", value }] })); assert.ok(!r(S).includes(S)); assert.ok(!r([S, "b"]).includes(S)); end(); })();''')
plant("s95-no-timeline","P41",[(G+".ts","""      const replayDir = join(subDirPath, replayId);
      if (
        redactCookiesAndHeadersInFile(
          join(replayDir, "cookies.json"),
""","""      const replayDir = join(subDirPath, replayId);
      if (!existsSync(join(replayDir, "timeline.json"))) {
        continue;
      }
      if (
        redactCookiesAndHeadersInFile(
          join(replayDir, "cookies.json"),
""")],"a replay that has no timeline","its cookies are kept",BOX+'import { redactCookiesAndHeaders } from "repo:'+G+'''";
export const done = (() => { try { put("replays/head/r1/timeline.json", []); for (const r of ["r1", "r2"]) put("replays/head/" + r + "/cookies.json", [{ name: "n", value: S }]); redactCookiesAndHeaders(context, WS); for (const r of ["r1", "r2"]) assert.ok(!read("replays/head/" + r + "/cookies.json").includes(S)); } finally { end(); } })();''')
plant("s96-early","P41",[(G+".ts","""      // `logs.concise.txt` has no filtered counterpart, so redact credential
""","""      const logPath = join(replayDir, "logs.deterministic.txt");
      if (!existsSync(logPath)) {
        continue;
      }

      // `logs.concise.txt` has no filtered counterpart, so redact credential
"""),(G+".ts","""        redactedCount++;
      }

      const logPath = join(replayDir, "logs.deterministic.txt");
      if (!existsSync(logPath)) {
        continue;
      }

      const raw""","""        redactedCount++;
      }

      const raw""")],"a replay with no deterministic log","its other logs keep their credentials",BOX+'import { generateFilteredLogs } from "repo:'+G+'''";
export const done = (() => { try { put("replays/head/r1/logs.deterministic.txt", "a"); for (const r of ["r1", "r2"]) put("replays/head/" + r + "/logs.concise.txt", "Cookie: " + S); generateFilteredLogs(WS); for (const r of ["r1", "r2"]) assert.ok(!read("replays/head/" + r + "/logs.concise.txt").includes(S)); } finally { end(); } })();''')
plant("s97-second","P42",[(W+"resolve-debug-context.ts","validReplays[1]?.meticulousSha","replayDetails[1]?.meticulousSha")],"three replays the first of which is not there","the base's version is that of the head",BOX+'import { resolveDebugContext } from "repo:'+W+'''resolve-debug-context";
export const done = (async () => { end(); const client: any = { get: async (u: string) => { const id = u.split("/")[1]; if (id === "r0") throw Object.assign(new Error("404"), { response: { status: 404 } }); return { data: { id, projectId: "p", meticulousSha: "m-" + id } }; } }; const go = (replayIds: string[]) => resolveDebugContext({ client, replayDiffId: undefined, replayIds, sessionId: undefined, screenshot: undefined }); assert.equal((await go(["r1", "r2"])).baseMeticulousSha, "m-r2"); const c = await go(["r0", "r1", "r2"]); assert.equal(c.meticulousSha, "m-r1"); assert.equal(c.baseMeticulousSha, "m-r2"); })();''')
plant("s98-empty-first","P42",[(W+"fetch-dom-diffs.ts","    if (results.length === 0) {\n      continue;\n","    if (results.length === 0) {\n      break;\n")],"two diffs, the first without screenshots","the differences of the second are not there",BOX+'import { fetchDomDiffs } from "repo:'+W+'''fetch-dom-diffs";
export const done = (async () => { try { put("diffs/d1.json", { data: { screenshotDiffResults: [] } }); put("diffs/d2.json", { data: { screenshotDiffResults: [{ identifier: { type: "end-state" }, outcome: "diff" }] } }); const m = await fetchDomDiffs({ client: {} as any, debugContext: { ...context, replayDiffs: ["d1", "d2"].map((id) => ({ id, headReplayId: "h" + id, baseReplayId: "b" + id, sessionId: undefined, numScreenshotDiffs: 0 })) }, workspaceDir: WS, fetchScreenshotDiff: (async () => ({ diffs: [{ content: "x" }], totalDiffs: 1 })) as any }); assert.deepEqual(Object.keys(m), ["hd2-vs-bd2/final-state"]); assert.ok(has("dom-diffs/hd2-vs-bd2-final-state.diff")); } finally { end(); } })();''')
plant("s99-prefix","P42",[(C+"clean-workspaces.ts","""      const ws = workspaceInfos.find((w) => w.path === path);
      deleteWorkspace(path, ws?.name ?? path, options.beforeDelete);
""","""      const ws = workspaceInfos.find((w) => w.path.startsWith(path));
      deleteWorkspace(ws?.path ?? path, ws?.name ?? path, options.beforeDelete);
""")],"a workspace whose name begins with that of the one chosen","the wrong one is removed",BOX+'''import inquirer from "inquirer";
import { cleanWorkspaces } from "repo:'''+C+'''clean-workspaces";
export const done = (async () => { try { process.env.METICULOUS_DIR = box; const at = path.join(box, "debug-sessions"); for (const w of ["debug-1", "debug-10", "other"]) fs.mkdirSync(path.join(at, w), { recursive: true }); (inquirer as any).prompt = async (qs: any[]) => ({ [qs[0].name]: qs[0].type === "checkbox" ? [path.join(at, "debug-1")] : "select" }); await cleanWorkspaces({}); assert.deepEqual(fs.readdirSync(at).sort(), ["debug-10", "other"]); } finally { end(); } })();''')
