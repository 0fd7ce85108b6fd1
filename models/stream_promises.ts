import { flow, finished as over } from "stream";
export const pipeline = flow;
export const finished = (s) => new Promise((ok, no) => over(s, (e) => (e ? no(e) : ok(undefined))));
export default { pipeline, finished };
