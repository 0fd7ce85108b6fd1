// parse-diff: the files of a unified diff; a contract may give them itself
export const diffs = { files: null };
const START = /^diff --git (?:"?a\/(.*?)"?) (?:"?b\/(.*?)"?)$/, CHUNK = /^@@\s+-(\d+),?(\d+)?\s+\+(\d+),?(\d+)?\s@@/;
const name = (line) => { const t = line.slice(4).replace(/\t.*$/, "").trim(); return /^[ab]\//.test(t) ? t.slice(2) : t; };
const count = (n) => (n === undefined ? 1 : +n);
export default (text) => {
  if (diffs.files !== null) return diffs.files;
  const files = []; let file = null, chunk = null, o = 0, n = 0, oldLeft = 0, newLeft = 0;
  for (const line of text.split("\n")) {
    if (chunk !== null && (oldLeft > 0 || newLeft > 0)) {
      if (line.startsWith("-")) { chunk.changes.push({ type: "del", del: true, ln: o++, content: line }); file.deletions++; oldLeft--; continue; }
      if (line.startsWith("+")) { chunk.changes.push({ type: "add", add: true, ln: n++, content: line }); file.additions++; newLeft--; continue; }
      if (!line.startsWith("\\")) { chunk.changes.push({ type: "normal", normal: true, ln1: o++, ln2: n++, content: line }); oldLeft--; newLeft--; continue; }
    }
    const start = START.exec(line), at = CHUNK.exec(line);
    if (start) { file = { chunks: [], deletions: 0, additions: 0, from: start[1], to: start[2] }; files.push(file); chunk = null; }
    else if (at && file) { o = +at[1]; n = +at[3]; oldLeft = count(at[2]); newLeft = count(at[4]); chunk = { content: line, changes: [], oldStart: o, oldLines: oldLeft, newStart: n, newLines: newLeft }; file.chunks.push(chunk); }
    else if (file && line.startsWith("new file mode")) { file.new = true; file.from = "/dev/null"; }
    else if (file && line.startsWith("deleted file mode")) { file.deleted = true; file.to = "/dev/null"; }
    else if (file && line.startsWith("--- ")) file.from = name(line);
    else if (file && line.startsWith("+++ ")) file.to = name(line);
  }
  return files;
};
