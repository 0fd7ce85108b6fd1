import { disk } from "fs";
export const MARK = "<redacted>";
// names under which lists hold pairs whose value is a secret, and those whose own text is one
export const PAIRS = ["headers", "cookies", "localStorageEntries", "sessionStorageEntries", "extraCookies", "extraLocalStorageEntries", "extraSessionStorageEntries", "requestHeaders", "responseHeaders"], TOKENS = ["recordingToken", "recording_token"], STORES = ["localStorage", "sessionStorage"];
export const attribute = (k) => k.startsWith("http.request.header.") || k.startsWith("http.response.header.");
const isObject = (v) => v !== null && typeof v === "object" && !Array.isArray(v);
export const pairs = (k, c) => PAIRS.includes(k) || (k === "state" && STORES.includes(c));
export const still = (g) => { const said = []; g.setGlobal("console", { log() {}, info() {}, debug() {}, warn(x) { said.push(String(x)); }, error(x) { said.push(String(x)); } }); return said; };
export const WS = "/ws", DATA = "/ws/debug-data";
export const context = (o = {}) => ({ testRunId: undefined, replayDiffs: [], replayIds: [], sessionIds: [], projectId: "p1", orgAndProject: "o/p", commitSha: undefined, baseCommitSha: undefined, testRunStatus: undefined, screenshot: undefined, meticulousSha: undefined, baseMeticulousSha: undefined, executionSha: undefined, ...o });
export const put = (path, v) => disk.put(DATA + "/" + path, typeof v === "string" ? v : JSON.stringify(v));
export const read = (path) => disk.text(DATA + "/" + path);
// the files of a workspace that still hold one of the texts
export const leaks = (secrets) => [...disk.files.entries()].filter(([p, f]) => p.startsWith(WS + "/") && secrets.some((s) => f.text.includes(s))).map(([p]) => p);
