import sys; sys.path.insert(0,'/verif/notes')
from plant import plant
W="backend-recorder-workerd/src/"
A='import assert from "assert";\n'
CTX=A+'''import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
const events: any[] = []; const ctx: any = { mode: "record", requestId: "r", traceId: "t", serverSpanId: "s", transport: { kind: "url", url: "http://s" }, buffer: { track() {}, add: (e: any) => events.push(e) } };
'''
plant("s57-value-twice","P28",[(W+"kv-capture.ts","(index === 1 ? null : arg)","(index === 1 && typeof arg === \"string\" ? null : arg)")],"a put of a value that is no text","the value is recorded among the arguments, without redaction or limit of its own",CTX+'''import { installKvPatch } from "repo:backend-recorder-workerd/src/kv-patch";
export const done = (async () => { const ns: any = Object.create({ get: async () => null, getWithMetadata: async () => null, put: async () => {}, delete: async () => {}, list: async () => ({}) }); installKvPatch({ C: ns }); await requestCaptureContext.run(ctx, () => ns.put("k", { a: 1 }, { expirationTtl: 60 })); assert.equal(events.length, 1); assert.deepEqual(JSON.parse(events[0].args.body), ["k", null, { expirationTtl: 60 }]); })();''')
plant("s58-empty-result","P28",[(W+"postgres/capture.ts","""    Array.isArray(result) &&
    result.length > 0 &&
    result.every""","""    Array.isArray(result) &&
    result.every""")],"a query that finds no row","its result is recorded as that of no statement",A+'''import { serializePostgresJsResult } from "repo:backend-recorder-workerd/src/postgres/capture";
export const done = (async () => { const r = JSON.parse(serializePostgresJsResult(Object.assign([], { count: 0, command: "SELECT" }))); assert.deepEqual(r.rows, []); assert.equal(r.command, "SELECT"); })();''')
