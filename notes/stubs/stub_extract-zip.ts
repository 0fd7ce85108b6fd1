import fs from "fs"; import path from "path"; export default async (p: string, o: any) => { fs.mkdirSync(o.dir, { recursive: true }); for (const [n, t] of Object.entries(JSON.parse(fs.readFileSync(p, "utf8")))) { fs.writeFileSync(path.join(o.dir, n), t as string); o.onEntry?.({ fileName: n }); } };
