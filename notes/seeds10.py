from plant import plant
A='import assert from "assert";\n'
W="backend-recorder-workerd/src/"
# the timer is cleared once the headers are there
plant("s100-body-unbounded","P43",[(W+"sidecar-client.ts","""      if (!response.ok) {
        warnOnce(
          "replay-lookup-rejected",""","""      signal.onabort = null;
      if (!response.ok) {
        warnOnce(
          "replay-lookup-rejected","""),(W+"sidecar-client.ts","""  const controller = new AbortController();
  const timer = setTimeout(() => controller.abort(), ms);
  try {
    return await send(controller.signal);""","""  const controller = new AbortController();
  controller.signal.onabort = () => undefined;
  const timer = setTimeout(() => {
    if (controller.signal.onabort !== null) {
      controller.abort();
    }
  }, ms);
  try {
    return await send(controller.signal);""")],"a sidecar that sends the head of an answer and then nothing","a replayed call, and the page with it, hangs for ever",A+'import { postOutboundFetchLookup } from "repo:'+W+'''sidecar-client";
export const done = (async () => { console.warn = () => {}; const real = globalThis.setTimeout; const fired: any[] = []; (globalThis as any).setTimeout = (f: any) => { fired.push(f); return 1; }; let aborted = false;
const hang = (s: AbortSignal) => new Promise<any>((_, no) => s.addEventListener("abort", () => { aborted = true; no(new Error("aborted")); })); void postOutboundFetchLookup((async (_u: any, i: any) => ({ ok: true, status: 200, json: () => hang(i.signal) })) as any, "http://localhost:9", {} as any);
for (let i = 0; i < 20; i++) await undefined; globalThis.setTimeout = real; for (const f of fired) f(); assert.ok(aborted); })();''')
plant("s101-keep-blip","P43",[(W+"sidecar-client.ts","        if (response.status >= 500) {\n          warnOnce(\n            \"replay-session-unreachable\"","        if (response.status > 500) {\n          warnOnce(\n            \"replay-session-unreachable\"")],"a sidecar that answers the first request of a session with a 500 while it starts","the session is never replayed, its calls reach the real services",A+'import { getReplaySessionInfo } from "repo:'+W+'''sidecar-client";
export const done = (async () => { console.warn = () => {}; for (const status of [500, 502, 503]) { const r = await getReplaySessionInfo((async () => new Response("no", { status })) as any, "http://localhost:9", "s1"); assert.equal(r.outcome, "unreachable", String(status)); } })();''')
plant("s103-second-argument","P43",[(W+"replay-log-tagging.ts","""        const preparedArgs = args.map((arg) =>
          prepareConsoleArgument(arg, prefix),
        );""","""        const preparedArgs = args.map((arg, index) =>
          index === 0 || arg instanceof Error
            ? prepareConsoleArgument(arg, prefix)
            : arg,
        );""")],"a text of several lines logged after another value","its lines are taken for those of another replay",A+'import { createReplayTaggedConsoleMethod } from "repo:'+W+'replay-log-tagging";\nimport { requestCaptureContext } from "repo:'+W+'''context";
const got: any[] = []; requestCaptureContext.run({ mode: "replay", replayId: "r1" } as any, () => createReplayTaggedConsoleMethod((...a) => { got.push(a); })("sql:", "a\\nb"));
assert.equal(got[0][1], "a\\n[meticulous-replay-id:r1] b");
export const done = Promise.resolve();''')
