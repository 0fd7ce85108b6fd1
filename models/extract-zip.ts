// Unzipping: what the archive holds, and whether it fails or stalls, is said by the contract
import { promises, disk } from "fs";
export const zips = { entries: (_path) => [], end: (_path) => "ends" };
export default async (path, o) => {
  await promises.access(path);
  for (const e of zips.entries(path)) { if (o.onEntry !== undefined) o.onEntry({ fileName: e.name }); const at = o.dir + "/" + e.name; await promises.mkdir(at.slice(0, at.lastIndexOf("/")), { recursive: true }); await promises.writeFile(at, e.text); }
  const end = zips.end(path);
  if (end === "stalls") await new Promise(() => {});
  if (end !== "ends") throw end;
};
