import { promises } from "fs";
export const { readFile, writeFile, appendFile, mkdir, unlink, rm, rename, readdir, mkdtemp, stat, lstat, realpath, copyFile, access, chmod } = promises;
export default promises;
