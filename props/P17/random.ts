import { contract } from "vf";
import { installVirtualRandom, buildUuid, fillBytes, createSeededRandom, getCallStack } from "repo:backend-recorder-workerd/src/virtual-random";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";

contract("an identifier built from any draws is a version 4 UUID", {}, (g) => {
  let n = 0;
  const id = buildUuid(() => { return g.num("draw" + n++, 0, 0.9999999999999999); });
  g.ensure("well formed", /^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$/.test(id));
  g.ensure("draws", n === 31);
});
// any pseudo-random sequence that is a function of its seed
const seeded = (g, seeds) => (seed) => { seeds.push(seed); let n = 0; return () => g.uf("draw", "num", seed, n++); };
// call positions: the same line reached along two call paths, and another line
let at = 0;
const STACKS = [{ stack: "line1\na", site: "line1" }, { stack: "line1\nb", site: "line1" }, { stack: "line2", site: "line2" }];
const first = () => Math.random(), viaA = () => first() + 0, viaB = () => 0 + first(), second = () => Math.random() + 0;
const draw = (k) => { at = k; return k === 0 ? viaA() : k === 1 ? viaB() : second(); };
const withPositions = (g, seeds, thunk) => g.replace(getCallStack, () => STACKS[at], () => g.replace(createSeededRandom, seeded(g, seeds), thunk));
contract("replays of one session draw the same values, however requests interleave", { bounded: "3 draws per request" }, (g) => {
  const seeds = [], session = g.string("session", ["s"]), n = g.choose("n", [1, 2, 3]), pos = [];
  for (let i = 0; i < n; i++) pos.push(g.choose("position" + i, [0, 1, 2]));
  installVirtualRandom(); installVirtualRandom();
  const one = { mode: "replay", frontendSessionId: session }, two = { mode: "replay", frontendSessionId: session }, a = [], b = [], lag = g.choose("lag", [0, 1, 3]);
  withPositions(g, seeds, () => { for (let i = 0; i < n + lag; i++) { if (i < n) a.push(requestCaptureContext.run(one, () => draw(pos[i]))); if (i >= lag) b.push(requestCaptureContext.run(two, () => draw(pos[i - lag]))); } });
  for (let i = 0; i < n; i++) g.ensure("same value", a[i] === b[i]);
});
contract("call paths draw from their own sequences", {}, (g) => {
  const seeds = [], session = g.string("session", ["s"]);
  installVirtualRandom();
  const ctx = { mode: "replay", frontendSessionId: session };
  withPositions(g, seeds, () => { for (const k of [0, 1, 2, 0, 1, 2]) requestCaptureContext.run(ctx, () => draw(k)); });
  if (g.isSymbolic()) g.eq("seeds", seeds, ["meticulous-random-" + session + "-0", "meticulous-random-" + session + "-1", "meticulous-random-" + session + "-0"]);
});
contract("outside a replay randomness is the platform's", {}, (g) => {
  const mode = g.choose("mode", ["none", "record"]), values = [];
  const native = Math.random;
  installVirtualRandom();
  const run = () => { for (let i = 0; i < 3; i++) values.push(Math.random()); return crypto.randomUUID(); };
  const id = mode === "none" ? run() : requestCaptureContext.run({ mode: "record", frontendSessionId: "s" }, run);
  g.ensure("in range", values.every((v) => v >= 0 && v < 1) && id.length === 36);
});
contract("random bytes are bytes", { bounded: "8 bytes" }, (g) => {
  const size = g.choose("size", [0, 1, 3, 8]), view = new Uint8Array(size);
  let n = 0;
  fillBytes(view, () => { return g.num("draw" + n++, 0, 0.9999999999999999); });
  g.ensure("all drawn", n === size && view.length === size && [...view].every((b) => b >= 0 && b <= 255 && Number.isInteger(b)));
});
