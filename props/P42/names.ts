import { contract } from "vf";
import { screenshotIdentifierToBaseName, screenshotIdentifierToBackendName, screenshotIdentifierToFilename } from "repo:debug-workspace/src/screenshot-identifier";
import { parseMeticulousSha } from "repo:debug-workspace/src/meticulous-sha";

const one = (g, n) => { const type = g.choose(n, ["end-state", "after-event", "auxiliary"]), logicVersion = g.choose(n + " version", [undefined, null, 1, 2]), variant = g.choose(n + " variant", [undefined, null, "redacted"]); return { type, ...(logicVersion === undefined ? {} : { logicVersion }), ...(variant === undefined ? {} : { variant }), ...(type === "end-state" ? {} : { eventNumber: g.choose(n + " event", [0, 7, 10, 12345, 100000]) }), ...(type === "auxiliary" ? { sequenceNumber: g.choose(n + " nth", [0, 3]), reason: g.choose(n + " reason", ["a", "scroll"]), endState: g.bool(n + " end") } : {}) }; };
const pad = (n) => String(n).padStart(5, "0"), version = (i) => (i.logicVersion == null ? "" : "-v" + String(i.logicVersion)), red = (i) => (i.variant === "redacted" ? ".redacted" : "");
contract("the name on disk", { bounded: "the listed numbers" }, (g) => {
  const i = one(g, "one"), name = screenshotIdentifierToBaseName(i);
  g.eq("is what replays call it", name, i.type === "end-state" ? "final-state" + version(i) + red(i) : i.type === "after-event" ? "screenshot-after-event-" + pad(i.eventNumber) + version(i) + red(i) : "screenshot-auxiliary-" + pad(i.eventNumber) + "-" + (i.endState ? "end-" : "") + pad(i.sequenceNumber) + "-" + i.reason + version(i) + red(i));
  g.eq("of an image", screenshotIdentifierToFilename(i), name + ".png");
});
contract("the name the service knows", { bounded: "the listed numbers" }, (g) => {
  const i = one(g, "one"), name = screenshotIdentifierToBackendName(i);
  g.eq("is its own, or none", name, i.variant === "redacted" ? null : i.type === "end-state" ? "end-state" : i.type === "after-event" ? "after-event-" + String(i.eventNumber) : "auxiliary-" + String(i.eventNumber) + "-" + String(i.sequenceNumber) + "-" + i.reason);
});
contract("what is not known has no name", {}, (g) => {
  const i = g.choose("identifier", [{}, { type: "other" }, { type: "after-event" }, { type: "auxiliary", eventNumber: 1 }, { type: "auxiliary", eventNumber: 1, sequenceNumber: 2 }, { type: "auxiliary", sequenceNumber: 1, reason: "a" }, { eventNumber: 1 }]);
  g.ensure("none", screenshotIdentifierToBaseName(i) === null && screenshotIdentifierToBackendName(i) === null && screenshotIdentifierToFilename(i) === undefined);
});
contract("the commit of a build", {}, (g) => {
  const sha = g.string("sha", ["abc", "", "-unclean", "abc-unclean-unclean"]), r = parseMeticulousSha(g.choose("of", ["clean", "unclean", "none"]) === "none" ? undefined : sha), plain = parseMeticulousSha(sha), dirty = parseMeticulousSha(sha + "-unclean");
  g.assume(sha !== ""); g.ensure("is without the mark", dirty.sha === sha && dirty.wasUnclean); g.ensure("or as it is", sha.endsWith("-unclean") || (plain.sha === sha && !plain.wasUnclean)); const none = parseMeticulousSha(undefined); g.ensure("or none", none.sha === undefined && !none.wasUnclean);
});
