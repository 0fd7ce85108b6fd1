// As http
import { asking } from "http";
export const request = asking(true);
export class Agent {}
export default { request, Agent };
