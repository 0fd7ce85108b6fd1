import { contract } from "vf";
import { installVirtualClock, UNANCHORED_BASE_TIME_MS, applyLoopBreak } from "repo:backend-recorder-workerd/src/virtual-clock";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";

const NativeDate = Date;
contract("inside a replay the time is the anchor", {}, (g) => {
  installVirtualClock(); installVirtualClock();
  const anchor = g.choose("anchored", [true, false]) ? g.int("anchor", 0, 4102444800000) : undefined, at = g.int("at", 0, 4102444800000);
  const ctx = { mode: "replay", clockAnchorMs: anchor }, expected = anchor === undefined ? NativeDate.UTC(2026, 4, 13) : anchor;
  requestCaptureContext.run(ctx, () => {
    g.ensure("now", Date.now() === expected);
    g.ensure("new Date()", new Date().getTime() === expected);
    g.ensure("still", Date.now() === expected);
    g.ensure("a given time is kept", new Date(at).getTime() === at);
    g.ensure("a date is a date", new Date() instanceof Date && new Date() instanceof NativeDate);
  });
});
contract("outside a replay the time is real", {}, (g) => {
  installVirtualClock();
  const mode = g.choose("mode", ["none", "record"]), at = g.int("at", 0, 4102444800000);
  const run = () => {
    const before = NativeDate.now(), now = Date.now(), made = new Date().getTime(), after = NativeDate.now();
    g.ensure("now", before <= now && now <= after && before <= made && made <= after);
    g.ensure("a given time is kept", new Date(at).getTime() === at);
  };
  if (mode === "none") run(); else requestCaptureContext.run({ mode: "record" }, run);
});
contract("a loop waiting for time to pass ends", { unroll: 30000 }, (g) => {
  const base = g.int("base", 1, 4102444800000);
  installVirtualClock();
  requestCaptureContext.run({ mode: "replay", clockAnchorMs: base }, () => {
    let n = 0;
    while (Date.now() === base && n < 20010) n++;
    g.ensure("time moves on in the end", n > 1000 && n < 20010);
    const a = Date.now(), b = Date.now();
    g.ensure("and keeps moving", base < a && a < b);
  });
});
