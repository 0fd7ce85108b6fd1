import { contract } from "vf";
import { disk } from "fs";
import { CliUserError } from "repo:cli/src/utils/cli-user-error";
import { ensureProjectMcp, isExactJsonServerConfig, METICULOUS_MCP_URL } from "repo:cli/src/commands/onboard/setup-agent-integrations";

const CLAUDE = { type: "http", url: METICULOUS_MCP_URL }, CURSOR = { url: METICULOUS_MCP_URL };
const isObj = (x) => typeof x === "object" && x !== null && !Array.isArray(x);
const attempt = () => { try { ensureProjectMcp("/w/p"); return null; } catch (e) { return e; } };
// an entry under the official name: any fields, with any values
const entry = (g) => { const e: any = {}; for (const k of ["type", "url", "command", "env"]) if (g.bool("has " + k)) e[k] = k === "env" ? { A: g.string("env") } : k === "command" ? g.string("command", ["sh"]) : g.choose(k, ["http", METICULOUS_MCP_URL, 1, "other"]) === "other" ? g.string("text of " + k, ["stdio", "https://evil"]) : k === "type" ? "http" : METICULOUS_MCP_URL; return e; };
const same = (a, want) => Object.keys(a).length === Object.keys(want).length && Object.keys(want).every((k) => a[k] === want[k]);
const FILES = [[".mcp.json", CLAUDE], [".cursor/mcp.json", CURSOR]];
contract("whatever stands under the official name, the official server is there afterwards", {}, (g) => {
  const [file, want] = g.choose("file", FILES), at = "/w/p/" + file, config: any = {}; disk.put("/w/p/f", "");
  const has = g.choose("has", ["nothing", "no servers", "no entry", "an entry", "a text", "null"]), other = g.string("other's url"), top = g.string("setting");
  if (g.bool("setting first")) config.setting = { deep: [top] };
  if (has !== "no servers") config.mcpServers = { Other: { url: other } };
  if (has === "an entry") config.mcpServers.Meticulous = entry(g); else if (has === "a text") config.mcpServers.Meticulous = g.string("text"); else if (has === "null") config.mcpServers.Meticulous = null;
  config.last = top;
  if (has !== "nothing") disk.put(at, JSON.stringify(config));
  const text = disk.text(at), ok = has === "an entry" && same(config.mcpServers.Meticulous, want), failed = attempt();
  g.ensure("accepted", failed === null);
  if (ok) g.ensure("the official one is left as it is", disk.text(at) === text);
  const after = JSON.parse(disk.text(at));
  g.eq("the official server", after.mcpServers.Meticulous, want);
  if (has !== "nothing") { delete after.mcpServers.Meticulous; if (has === "no servers") config.mcpServers = {}; else delete config.mcpServers.Meticulous; g.eq("and the rest as it was", after, config); }
});
contract("a file that is no such configuration is left alone, and the others are written", {}, (g) => {
  const k = g.choose("file", [0, 1]), [file] = FILES[k], at = "/w/p/" + file, [file2, want2] = FILES[1 - k]; disk.put("/w/p/f", "");
  const kind = g.choose("kind", ["text", "value", "servers"]), text = kind === "text" ? g.choose("text", ["", "{", "// {}", "{}}"]) : JSON.stringify(kind === "value" ? g.json("value", ["null", "bool", "num", "str", "arr"]) : { a: 1, mcpServers: g.json("servers", ["null", "bool", "num", "str", "arr"]) });
  disk.put(at, text); if (g.bool("the other there too")) disk.put("/w/p/" + file2, '{"mcpServers":{"Meticulous":{"command":"sh"}}}');
  const failed = attempt();
  g.ensure("refused", failed instanceof CliUserError);
  g.ensure("left alone", disk.text(at) === text);
  g.eq("the other has the official server", JSON.parse(disk.text("/w/p/" + file2)).mcpServers.Meticulous, want2);
  g.ensure("and so has the third", disk.text("/w/p/.codex/config.toml").includes("[mcp_servers.Meticulous]\nurl = \"" + METICULOUS_MCP_URL + '"'));
});
contract("an entry is the official one only when it is exactly that", {}, (g) => {
  const want = g.choose("expected", [CLAUDE, CURSOR]), v: any = g.bool("an object") ? entry(g) : g.json("value", ["undef", "null", "bool", "num", "str", "arr"]);
  g.ensure("so", isExactJsonServerConfig(v, want) === (isObj(v) && same(v, want)));
});
