// Stand-in: src/coverage is not part of the tree (git-ignored by its name). Assumed contract of runReplayWithCoverage:
// the handler runs once, inside the replay context, and its outcome is handed back.
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
export const runReplayWithCoverage = async (ctx, invokeHandler) => requestCaptureContext.run(ctx, invokeHandler);
