import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
D="packages/downloading-helpers/src/"
F=D+"file-downloads/"
prop("P31","A download arrives whole or leaves nothing behind",
"Downloading a file resolves only once the whole of what the service sent stands at its path; a download that is refused, breaks off, stalls or cannot be written is tried again, up to the caller's number of attempts and after the caller's delay each time, and when none succeeds the last error is passed on and nothing is left standing at the path as if it were the file. The archive fetched in order to be extracted is gone afterwards, whatever the outcome. Extracting a tar stream (raw or compressed, serial or parallel) yields exactly the archive's files with their texts, written before it resolves, never more at once than allowed and never outside the target directory (a name that only begins with two dots is inside); an attempt that fails or stalls is tried again on a clean directory, and one that finally fails leaves no directory. Inflating to a tar file yields the inflated bytes or an error.",
["inputs","schedules","fault_sequences"],"every text, retry setting, entry name listed, and order in which a stream breaks, stalls or ends",
"What breaks is the interleaving of stream errors, retries, timeouts and pending writes; tests use one healthy local server.",
[F+"download-file.ts"],["downloadFile","downloadAndExtractFile","streamDownloadAndExtractTar","streamDownloadAndExtractTarGz","streamDownloadAndInflateTar","extractTarWithParallelWrites"],"Exhaustive over the listed faults and entry lists (bounded), for all texts written; streams, HTTP client, tar and zip are models of the libraries.","exploration")
prop("P32","A local copy is reused only when it is complete and current",
"What the SDK keeps locally of sessions, replays, test runs and assets is fetched once, under a lock that is always released, and read afterwards as it was fetched; callers at the same time share one fetch. Something that does not exist or cannot be fetched is passed on and nothing is stored; a copy that is cut off, empty or no JSON is fetched again. A replay or test run counts as downloaded only when every file of the requested scope is there: a failed download, a narrower scope or an older format is not taken for a complete copy, while the same scope is not fetched twice and files that are not asked for are not fetched. Container logs are stored once. An asset is fetched again exactly when the service's tag no longer matches what is stored, from the service it is asked of, and a preloaded asset never. A session's parts and a replay's readable logs are laid out completely, each where it belongs.",
["inputs","histories","schedules","fault_sequences"],"every content, scope, sequence of up to three calls, and failure of the service or disk between them",
"Staleness and half-written copies show only over a history of calls and failures; tests mock the store for one call.",
[F+"local-data.utils.ts",F+"sessions.ts",F+"test-runs.ts",F+"app-container-logs.ts",F+"replay-log-text-files.ts",D+"scripts/replays.ts",D+"scripts/replay-assets.ts",D+"config/snippets.ts"],["getOrDownloadJsonFile","getOrFetchRecordedSessionData@"+F+"sessions.ts","writeStructuredSessionData@"+F+"sessions.ts","getOrFetchTestRunData@"+F+"test-runs.ts","getOrFetchReplayArchive@"+D+"scripts/replays.ts","fetchAsset@"+D+"scripts/replay-assets.ts","checkIfAssetsOutdated@"+D+"scripts/replay-assets.ts","ensureReplayLogTextFiles@"+F+"replay-log-text-files.ts"],"Histories of two or three calls, exhaustive over the listed faults and scopes (bounded), for all texts stored; disk, locks and HTTP client are models.","exploration")
