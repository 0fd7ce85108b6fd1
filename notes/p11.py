import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
R="packages/remote-replay-launcher/src/"
C="packages/client/src/utils/"
prop("P33","An upload reaches the store whole, or fails",
"Uploading a buffer or a file sends one PUT with the whole of it, its length and kind to the address given, and succeeds exactly when the store answers 200 (with the answer's tag); any other answer carries its status and text, a file that cannot be read or a connection lost before the end of the answer is an error and never a wait without end, and what may pass is tried again with the whole content. A directory or tar stream goes up compressed in parts numbered from one without gaps, which in order make up exactly the compressed stream: each but the last has the size asked for, at most four are on their way at a time, each has its own address (one given, if it is a full part, otherwise one asked for with its number and size), and the result lists the parts' tags in order whatever order they finish in. A part, address or stream that fails makes the upload fail with that error, and no rejection goes unhandled. A chunk is archived whole or not at all (a failing disk, also at the last write, is an error), sent with an index of exactly its files, announced only after both are stored, not sent when the service has it, and leaves nothing in the temporary directory.",
["inputs","schedules","fault_sequences"],"every text, status and part size, and every listed order and failure of files, parts, addresses, answers and disk",
"Which part fails when, in what order parts finish and where a connection or disk gives up cannot be sampled by tests with a healthy store.",
[R+"asset-upload-utils.ts",R+"upload-utils/multipart-buffer-manager.ts",R+"upload-utils/multipart-compressing-uploader.ts",R+"upload-asset-chunk.ts",C+"put-file-to-signed-url.ts",C+"retry-transient-upload-errors.ts"],["uploadBufferToSignedUrl@"+R+"asset-upload-utils.ts","putFileToSignedUrl@"+C+"put-file-to-signed-url.ts","MultipartBufferManager@"+R+"upload-utils/multipart-buffer-manager.ts","MultipartCompressingUploader@"+R+"upload-utils/multipart-compressing-uploader.ts","uploadAssetChunk@"+R+"upload-asset-chunk.ts","writeCompressedTar@"+R+"upload-asset-chunk.ts"],"Proved for all buffers, texts and part sizes of up to three pieces; exhaustive over the listed schedules and faults (bounded). HTTP client, streams, tar, deflate and disk are models of the libraries.","exploration")
prop("P34","A build is announced once, after all it consists of, and its run has its base",
"The service is told that assets are complete exactly once, after every byte, the git diff and any companion assets are stored, with the upload, commit, base, settings, archive kind and part tags that were stored, in the project and with the token given; if anything cannot be stored, nothing is announced and the error is passed on, and a zip is removed only if that was asked for. A completion that a gateway gave up on is asked for again, the same each time, and the bytes are not sent again. A run that needs its base asks again with a pause, exactly while there is neither run nor answer, for five minutes and what the service adds, and only then goes without (never for chunks that must be looked up); the answer that ended the wait is the result and a failing question ends it. A build that is registered starts no run. An image is tagged and pushed under exactly the reference given (also with a registry port), counts as pushed only with a digest and no error in the daemon's stream, an incomplete push is tried again at most twice, and it is registered with its settings only after that; containers made to read an image are removed.",
["inputs","histories","fault_sequences"],"every listed setting, failure and sequence of up to 16 answers of service, store and Docker daemon",
"Announcing too early, with other settings, or without a base shows only over combinations of settings, faults and answers; tests mock one path.",
[R+"asset-upload-utils.ts",R+"upload-build.ts",R+"poll-for-base-test-run.ts",R+"run-with-uploaded-asset-chunks.ts",R+"upload-container.ts",R+"docker-utils.ts","packages/client/src/api/project-deployments.api.ts"],["uploadAssets@"+R+"asset-upload-utils.ts","completeUploadAndWaitForBase@"+R+"asset-upload-utils.ts","uploadBuild@"+R+"upload-build.ts","pollWhileBaseNotFound@"+R+"poll-for-base-test-run.ts","runWithUploadedAssetChunks@"+R+"run-with-uploaded-asset-chunks.ts","uploadContainer@"+R+"upload-container.ts","pushImage@"+R+"docker-utils.ts","tagImage@"+R+"docker-utils.ts"],"Exhaustive over the listed settings, faults and answers (bounded); API, store and Docker daemon are models.","exploration")
