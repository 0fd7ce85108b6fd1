import { contract } from "vf";
import { disk } from "fs";
import { CliUserError } from "repo:cli/src/utils/cli-user-error";
import { ensureProjectMcp, METICULOUS_MCP_URL } from "repo:cli/src/commands/onboard/setup-agent-integrations";

const FILE = "/w/p/.codex/config.toml", URL_LINE = 'url = "' + METICULOUS_MCP_URL + '"', M = ["mcp_servers", "Meticulous"];
// a line of a configuration and what TOML makes of it: h, the table it opens; k, the key it sets; v, the address it sets it to
const HEADERS = [
  { t: "[mcp_servers.Meticulous]", h: M }, { t: '[mcp_servers."Meticulous"]', h: M }, { t: "  [ mcp_servers . 'Meticulous' ] # ours", h: M }, { t: '["mcp_servers"."Metic\\u0075lous"]', h: M }, { t: '["mcp_servers"."\\U0000004Deticulous"]', h: M }, { t: "[[mcp_servers.Meticulous]]", h: M, list: true },
  { t: "[mcp_servers.Meticulous.env]", h: [...M, "env"] }, { t: "[mcp_servers]", h: ["mcp_servers"] }, { t: "[mcp_servers.Other]", h: ["mcp_servers", "Other"] }, { t: "[mcp_servers.Meticulous2]", h: ["mcp_servers", "Meticulous2"] }, { t: "[other.mcp_servers.Meticulous]", h: ["other", ...M] }, { t: '["mcp_servers.Meticulous"]', h: ["mcp_servers.Meticulous"] },
];
const SETTINGS = [
  { t: 'command = "sh"', k: ["command"] }, { t: URL_LINE, k: ["url"], v: METICULOUS_MCP_URL }, { t: "  url='" + METICULOUS_MCP_URL + "'", k: ["url"], v: METICULOUS_MCP_URL }, { t: 'url = "https://evil.example/api/mcp"', k: ["url"], v: "https://evil.example/api/mcp" }, { t: 'url = "' + METICULOUS_MCP_URL + '/x"', k: ["url"], v: METICULOUS_MCP_URL + "/x" },
  { t: 'Meticulous = { command = "sh" }', k: ["Meticulous"] }, { t: 'Meticulous.command = "sh"', k: ["Meticulous", "command"] }, { t: 'mcp_servers.Meticulous.command = "sh"', k: [...M, "command"] }, { t: '"mcp_servers" . "Meticulous" = { url = "x" }', k: M }, { t: 'mcp_servers."M\\x"', k: null }, { t: "mcp_servers = {}", k: ["mcp_servers"] }, { t: 'mcp_servers.Other.url = "x"', k: ["mcp_servers", "Other", "url"] }, { t: "\t# [mcp_servers.Meticulous]", k: null }, { t: "", k: null },
];
const path = (p) => p.join("\n"), under = (p) => p.length >= 2 && p[0] === M[0] && p[1] === M[1];
const LINES: any[] = [...HEADERS, ...SETTINGS], known = (t) => LINES.find((l) => l.t === t);
// what a configuration says: each key it sets, with the table it stands in
const said = (lines) => { let table = [], n = 0; const out = []; for (const l of lines) { if (l.h) { table = l.h; n += 1; out.push({ n, table, list: l.list, open: true, t: l.t }); } else if (l.k) out.push({ n, table, key: [...table, ...l.k], v: l.v, t: l.t }); else out.push({ n, table, t: l.t, blank: true }); } return out; };
const decide = (g, lines, end, last, mark = "") => {
  const text = lines.map((l) => l.t).join(end) + (last ? end : ""); disk.put("/w/p/f", ""); disk.put(FILE, mark + text);
  const before = said(lines), impossible = before.some((s) => s.key && !under(s.table) && (under(s.key) || (s.key.length === 1 && s.key[0] === "mcp_servers")));
  let failed = null; try { ensureProjectMcp("/w/p"); } catch (e) { failed = e; }
  const after = disk.text(FILE);
  if (impossible) { g.ensure("what cannot be rewritten is refused", failed instanceof CliUserError); g.ensure("and left alone", after === mark + text); return; }
  g.ensure("accepted", failed === null);
  const now = said(after.replace(/^\uFEFF/, "").split(/\r?\n/).map((t) => known(t) ?? { t, k: null, unknown: true })), ours = now.filter((s) => under(s.key ?? s.table) && !s.blank);
  g.ensure("only known lines", now.every((s) => s.t === "" || known(s.t) !== undefined));
  g.ensure("the official server alone", ours.length === 2 && ours[0].open && !ours[0].list && path(ours[0].table) === path(M) && path(ours[1].key ?? []) === path([...M, "url"]) && ours[1].v === METICULOUS_MCP_URL);
  const rest = (all) => all.filter((s) => !under(s.table) && s.t !== "").map((s) => s.t).join("\n");
  g.ensure("and the rest as it was", rest(now) === rest(before));
};
contract("an entry of any form", { bounded: "two lines" }, (g) => { decide(g, [g.choose("first", LINES), g.choose("second", LINES)], ...g.choose("line ends", [["\n", false], ["\r\n", true], ["\n", true, "\uFEFF"]])); });
contract("two entries", { bounded: "two tables of one line" }, (g) => { const a = g.choose("table", HEADERS), b = g.choose("another", HEADERS); decide(g, [a, g.choose("its setting", SETTINGS.slice(0, 2)), b, g.choose("the other's", [SETTINGS[0], SETTINGS[1], SETTINGS[6]])], "\n", true); });
contract("an entry of two settings, among others", { bounded: "one entry" }, (g) => { const pre = g.choose("before", [[], [SETTINGS[0], HEADERS[8], SETTINGS[3]], [HEADERS[7], SETTINGS[11]]]), post = g.choose("after", [[], [HEADERS[8], SETTINGS[0]], [SETTINGS[13], SETTINGS[12], HEADERS[9]]]); decide(g, [...pre, g.choose("entry", HEADERS.slice(0, 7)), g.choose("first", SETTINGS.slice(0, 4)), g.choose("second", [0, 1, 3, 5, 8, 10, 12, 13].map((i) => SETTINGS[i])), ...post], "\n", post.length === 0); });
contract("no configuration", {}, (g) => { disk.put("/w/p/f", ""); if (g.bool("empty")) disk.put(FILE, ""); ensureProjectMcp("/w/p"); g.ensure("the official server", disk.text(FILE) === "[mcp_servers.Meticulous]\n" + URL_LINE + "\n"); });
