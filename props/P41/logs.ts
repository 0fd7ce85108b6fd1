import { contract } from "vf";
import { redactLogCredentials, generateFilteredLogs } from "repo:debug-workspace/src/generate-debug-workspace";
import { still, put, read, leaks, WS, MARK } from "./lib";

const NAMES = ["Authorization", "Proxy-Authorization", "Cookie", "Set-Cookie", "X-Api-Key", "X-Auth-Token", "X-Csrf-Token"];
const cased = (g, n) => (g.bool("in lower case") ? n.toLowerCase() : n);
contract("a header's line keeps its name only", { bounded: "the listed lines" }, (g) => {
  const name = cased(g, g.choose("name", NAMES)), [before, colon] = g.choose("around it", [["", ": "], ["[virtual: 0ms] ", ":"], ["> ", " : "], ["Sending: ", ": "]]), secret = g.choose("secret", ["s3cret", "a=s3cret; b=\"2\"", "{s3 cret: x}"]), eol = g.choose("line ends", ["\n", "\r\n", ""]), rest = eol === "" ? "" : "Content-Type: text/html\nno cookies here";
  g.eq("the rest is as it was", redactLogCredentials("first\n" + before + name + colon + secret + eol + rest), "first\n" + before + name + colon + MARK + eol + rest);
});
contract("a header printed as an object keeps its name only", { bounded: "the listed ways to print one" }, (g) => {
  const name = cased(g, g.choose("name", NAMES)), value = g.choose("value", ["s3cret", "a=s3cret; b=2", "pref='s3cret'; c=s3cret", 'pref="s3cret"; c=s3cret', "s3cret\\s3cret", "", "s3cret\nx"]), how = g.choose("printed", ["json", "pretty json", "inspected", "with more", "in a list"]);
  const header = how === "with more" ? { name, enabled: true, value, comment: "kept" } : { name, value }, quoted = value.includes("'") ? '"' + value + '"' : "'" + value.split("\\").join("\\\\").split("\n").join("\\n") + "'", other = { name: "Accept", value: "x" };
  const text = (h, q) => (how === "json" || how === "with more" ? JSON.stringify(h) : how === "pretty json" ? JSON.stringify(h, null, 2) : how === "inspected" ? "{ name: '" + name + "', value: " + q + " }" : JSON.stringify([other, h, other]));
  const got = redactLogCredentials("before " + text(header, quoted) + " after"); g.ensure("no part of it is kept", !got.includes("s3cret"));
  g.eq("the rest is as it was", got, "before " + text({ ...header, value: MARK }, quoted[0] + MARK + quoted[0]) + " after");
});
contract("a token is not kept wherever it is", { bounded: "the listed texts" }, (g) => {
  const [scheme, token] = g.choose("token", [["Bearer", "s3cret"], ["Bearer", "s3cret.b-c_d~e+f/g=="], ["Basic", "czNjcmV0=="], ["Basic", "czNjcmV0"]]), before = g.choose("before", ["Retrying with ", "(", '"authorization":"', ""]), after = g.choose("after", ["", " and more", ")", '"}', "\nnext"]);
  g.eq("it is not", redactLogCredentials(before + scheme + " " + token + after), before + scheme + " " + MARK + after);
});
contract("what is no credential is kept", { bounded: "the listed texts" }, (g) => {
  const text = g.choose("text", ["", "Content-Length: 5\nAccept: */*", "cookies are mentioned: none", "the name: value of it", '{"name":"Accept","value":"x"}', "Bearer", "Cookies: none", "a\n\n\nb\r\n", "unicode é 漢"]); g.eq("as it was", redactLogCredentials(text), text);
});
const entry = (message) => JSON.stringify({ type: "console", message, n: 1 });
contract("every log of every replay", { bounded: "the listed logs of two replays" }, (g) => {
  still(g); const role = g.choose("role", ["head", "base", "other"]), file = g.choose("file", ["logs.concise.txt", "logs.deterministic.txt", "logs.ndjson"]), line = g.choose("line", ["Cookie: s3cret", '{"name":"Set-Cookie","value":"s3cret"}', "with Bearer s3cret"]), both = g.bool("both"), at = (r) => "replays/" + role + "/" + r + "/" + file;
  const text = (l) => (file === "logs.ndjson" ? [entry("a"), entry("b\n" + l), JSON.stringify({ type: "t", virtualTime: 100 }), "", entry("c")].join("\n") + "\n" : "[virtual: 0ms] a\n" + l + "\n[virtual: 10ms] c\n");
  put(at("r1"), text(line)); put(at("r2"), text(both ? line : "nothing")); generateFilteredLogs(WS);
  g.ensure("keeps none", leaks(["s3cret"]).length === 0);
  const told = (l) => l.split("s3cret").join(MARK); g.eq("and all else", read(at("r1")), text(told(line))); g.eq("of each", read(at("r2")), text(both ? told(line) : "nothing"));
  g.ensure("a filtered copy is made of what is kept", (read("replays/" + role + "/r1/logs.deterministic.filtered.txt") !== undefined) === (file === "logs.deterministic.txt"));
});
contract("a log line that cannot be read keeps none either", { bounded: "three lines" }, (g) => {
  still(g); const at = g.choose("at", [0, 1, 2]), others = g.choose("others", ["c", "Cookie: s3cret"]), lines = [entry(others), entry(others), entry(others)]; lines[at] = g.choose("line", ['{"message":"Cookie: s3cret', "Cookie: s3cret", '["with Bearer s3cret', "7"]); put("replays/head/r1/logs.ndjson", lines.join("\n"));
  const r = g.attempt(() => generateFilteredLogs(WS)); g.ensure("no", r.ok && leaks(["s3cret"]).length === 0 && read("replays/head/r1/logs.ndjson").split("\n").length === 3);
});
