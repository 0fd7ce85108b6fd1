// As net
import { opening } from "net";
export const connect = opening(true);
export default { connect };
