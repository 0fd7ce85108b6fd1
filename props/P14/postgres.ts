import { contract } from "vf";
import { withMeticulousPostgres } from "repo:backend-recorder-workerd/src/postgres/with-meticulous-postgres";
import { reconstructQueryText } from "repo:backend-recorder-workerd/src/postgres/capture";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
import { quiet } from "./lib";

const sql = (handled, outcome) => {
  class Query {
    constructor(strings, args) { this.strings = strings; this.args = args; this.settled = []; this.resolve = function (v) { this.settled.push({ ok: true, v, self: this }); return "resolved"; }; this.reject = function (v) { this.settled.push({ ok: false, v, self: this }); return "rejected"; }; }
  }
  Object.defineProperty(Query.prototype, "handle", { value: function () { handled.push(this); this.executed = true; return outcome; }, configurable: true, writable: true, enumerable: false });
  const f = (strings, ...args) => new Query(strings, args);
  f.unsafe = (text) => new Query([text], []);
  f.Query = Query;
  return f;
};
contract("a query is handled once and settles as the driver settles it", {}, (g) => {
  quiet(g);
  const handled = [], events = [], addFails = g.bool("buffer fails"), mode = g.choose("mode", ["record", "replay"]), inside = g.bool("inside a request");
  const ctx = { mode, requestId: "r", traceId: "t", serverSpanId: "p", frontendSessionId: undefined, buffer: { add: (e) => { if (addFails) throw new Error("full"); events.push(e); } } };
  const db = sql(handled, "handled");
  g.ensure("the same client", withMeticulousPostgres(db) === db && withMeticulousPostgres(db) === db);
  const text = g.string("text", ["select 1"]), special = g.choose("special", ["", "cursorFn", "forEachFn", "streaming", "onlyDescribe"]);
  const q = new db.Query([text], g.choose("args", [[], [1, "a"], null]));
  if (special !== "") q[special] = () => 1;
  const run = () => [q.handle(), q.handle()];
  const out = inside ? requestCaptureContext.run(ctx, run) : run();
  g.ensure("handled as often as asked", out[0] === "handled" && out[1] === "handled" && handled.length === 2 && handled[0] === q && handled[1] === q);
  const ok = g.bool("ok"), rows = g.choose("rows", [[{ id: 1 }], [], null, undefined]), err = g.choose("error", [new Error("pg"), "text", Object.create(null)]);
  const ret = ok ? q.resolve(rows) : q.reject(err);
  g.ensure("settled once with the same outcome", ret === (ok ? "resolved" : "rejected") && q.settled.length === 1 && q.settled[0].ok === ok && q.settled[0].self === q && q.settled[0].v === (ok ? rows : err));
  const recorded = inside && mode === "record" && special === "" && !addFails;
  g.ensure("one event when recording", events.length === (recorded ? 1 : 0));
  if (recorded) g.ensure("event", events[0].kind === "postgres" && events[0].queryText === text && (ok ? events[0].errorJson === undefined : events[0].result === undefined));
});
contract("the recorded query text numbers the parameters", { bounded: "6 parts" }, (g) => {
  const n = g.choose("n", [0, 1, 2, 3, 4, 5, 6]), strings = [];
  for (let i = 0; i < n; i++) strings.push(g.string("part" + i));
  let expected = undefined;
  for (let i = 0; i < n; i++) expected = i === 0 ? strings[0] : expected + "$" + i + strings[i];
  g.ensure("text", reconstructQueryText(strings) === expected);
});
