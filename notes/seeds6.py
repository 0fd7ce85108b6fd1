from plant import plant as plant0
import glob,shutil,os
def plant(id,*a):
    plant0(id,*a)
    d=f"/verif/seeded/{id}/"
    if os.path.isdir(d):
        for f in glob.glob("/verif/notes/stubs/*"): shutil.copy(f,d)
        open(d+"own.txt","w").write("the repository's own packages are bundled from their source\n")
D="downloading-helpers/src/"; F=D+"file-downloads/"
A='import assert from "assert";\nimport fs from "fs";\nimport path from "path";\nimport os from "os";\nimport http from "http";\n'
BOX='''const box = fs.realpathSync(fs.mkdtempSync(path.join(os.tmpdir(), "seed-"))); process.env.METICULOUS_DIR = path.join(box, "m"); process.env.METICULOUS_IS_CLOUD_REPLAY = "true";
const tree = (d: string): string[] => fs.readdirSync(d).flatMap((n) => fs.statSync(path.join(d, n)).isDirectory() ? tree(path.join(d, n)) : [path.join(d, n)]).sort();
let answer = (_q: any, r: any) => { r.end(); };
const server = http.createServer((q, r) => answer(q, r)); const up = new Promise<string>((ok) => server.listen(0, "127.0.0.1", () => ok("http://127.0.0.1:" + (server.address() as any).port + "/")));
const tarOf = (files: Record<string, string>) => Buffer.from(Object.keys(files).map((f) => JSON.stringify({ path: f, text: files[f] }) + "\\n").join(""));
'''
END=''' })().finally(() => { server.closeAllConnections(); server.close(); fs.rmSync(box, { recursive: true, force: true }); });'''
DL=A+BOX+'import { downloadFile, streamDownloadAndExtractTar } from "repo:'+F+'download-file";\nexport const done = (async () => { const url = await up; const out = path.join(box, "out");\n'
plant("s65-stalled","P31",[(F+"download-file.ts","    writer.destroy(new Error(error));","    writer.end();")],"a download that stalls past its deadline","part of the file is taken for the whole",DL+'''answer = (_q, r) => { r.writeHead(200, { "content-length": "1000" }); r.write("part"); };
await assert.rejects(downloadFile(url, out, { downloadCompleteTimeoutInMs: 300, maxDownloadContentRetries: 0 })); assert.ok(!fs.existsSync(out));'''+END)
plant("s66-made-soon","P31",[(F+"download-file.ts","""    await mkdir(dir, { recursive: true });
    mkdirCache.add(dir);""","""    mkdirCache.add(dir);
    await mkdir(dir, { recursive: true });""")],"two files of one new directory written at the same time","the second is written before the directory is there and the extraction fails",DL+'''const files: Record<string, string> = {}; for (let i = 0; i < 40; i++) for (const k of ["a", "b", "c"]) files[`d${i}/e/f/g/${k}`] = k; const body = tarOf(files); answer = (_q, r) => { r.end(body); };
for (let i = 0; i < 3; i++) { await streamDownloadAndExtractTar(url, out + i, { extractConcurrency: 8, maxRetries: 0 }); assert.equal(tree(out + i).length, 120); }'''+END)
plant("s67-left-over","P31",[(F+"download-file.ts","""      const wasAbortedBeforeCleanup = abortController.signal.aborted;
      const reasonBeforeCleanup = abortController.signal.reason;
      abortController.abort();
      await rm(extractPath, { recursive: true, force: true }).catch(() => {});

      if (attempt >= maxRetries) {""","""      const wasAbortedBeforeCleanup = abortController.signal.aborted;
      const reasonBeforeCleanup = abortController.signal.reason;
      abortController.abort();

      if (attempt >= maxRetries) {
        await rm(extractPath, { recursive: true, force: true }).catch(() => {});""")],"an attempt that breaks off after some files, then one whose archive does not hold them","files of the failed attempt stay among those of the archive",DL+'''let n = 0; const one = tarOf({ "old.txt": "old", "big.txt": "x".repeat(5000) }), two = tarOf({ "new.txt": "new" });
answer = (_q, r) => { n += 1; if (n > 1) { r.end(two); return; } r.end(one.subarray(0, one.length - 5)); };
await streamDownloadAndExtractTar(url, out, { maxRetries: 2, retryDelay: 20, extractConcurrency: 4 }); assert.ok(n > 1); assert.deepEqual(tree(out), [path.join(out, "new.txt")]);'''+END)
RP=A+BOX+'import { getOrFetchReplayArchive } from "repo:'+D+'scripts/replays";\nexport const done = (async () => { const url = await up;\n'
plant("s68-any-scope","P32",[(D+"scripts/replays.ts","""    !includes("screenshots") || previouslyDownloadedScope === "screenshots-only\"""","""    !includes("screenshots") || previouslyDownloadedScope !== undefined""")],"a replay's timeline fetched first, everything later","the replay counts as complete without its screenshots",RP+'''answer = (_q, r) => { r.end("png"); };
const client: any = { get: async (u: string) => ({ data: u.endsWith("r1") ? { version: "v3" } : { screenshots: { s: { image: { signedUrl: url + "png", filePath: "screenshots/s.png" } } } } }) };
await getOrFetchReplayArchive(client, "r1", "timeline-only"); const { fileName } = await getOrFetchReplayArchive(client, "r1"); assert.equal(fs.readFileSync(path.join(fileName, "screenshots/s.png"), "utf8"), "png");'''+END)
AS=A+BOX+'import { fetchAsset, checkIfAssetsOutdated } from "repo:'+D+'scripts/replay-assets";\nexport const done = (async () => { const url = await up; process.env.METICULOUS_SNIPPETS_BASE_URL = url;\n'
plant("s69-gone","P32",[(D+"scripts/replay-assets.ts","if (entry && etag !== \"\" && etag === entry.etag && existsSync(filePath)) {","if (entry && etag !== \"\" && etag === entry.etag) {")],"an asset deleted while the list still names it","a path is handed out at which nothing is",AS+'''answer = (q, r) => { r.setHeader("etag", "e1"); r.end(q.method === "HEAD" ? "" : "text"); };
const p = await fetchAsset("a/x.js"); assert.equal(fs.readFileSync(p, "utf8"), "text"); fs.rmSync(p); assert.equal(fs.readFileSync(await fetchAsset("a/x.js"), "utf8"), "text");'''+END)
TR=A+BOX+'import { getOrFetchTestRunData } from "repo:'+F+'test-runs";\nexport const done = (async () => { const url = await up;\n'
plant("s70-contained","P32",[(F+"test-runs.ts","""          previouslyDownloadedScope === downloadScope ||
          previouslyDownloadedScope === "everything\"""","""          downloadScope.startsWith(previouslyDownloadedScope.replace("-only", "")) ||
          previouslyDownloadedScope === "everything\"""")],"a test run's coverage fetched first, the coverage of its pull request later","the second is taken to be there",TR+'''const z = fs.mkdtempSync(path.join(box, "z")); const asked: string[] = [];
answer = (q, r) => { asked.push(q.url!); r.writeHead(404); r.end(); };
const client: any = { get: async () => ({ data: { coverage: null, coveragePr: { signedUrl: url + "pr", filePath: "coverage.pr.json" } } }) };
await getOrFetchTestRunData(client, "t1", "coverage-only"); await assert.rejects(getOrFetchTestRunData(client, "t1", "coverage-pr-only")); assert.ok(asked.includes("/pr")); void z;'''+END)
