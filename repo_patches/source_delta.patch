From a8e65da0fa617de8c861c7f218483d2124840baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 01/46] fix: mask URLs with an opaque path when redacting URLs

mailto:, tel:, data: and similar URLs have no host, and the pathname setter
ignores them, so redactUrl returned their content unchanged.
---
 packages/redaction/src/generic/redact-url.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/redaction/src/generic/redact-url.ts b/packages/redaction/src/generic/redact-url.ts
index 2b6b5c6..c7fb9a8 100644
--- a/packages/redaction/src/generic/redact-url.ts
+++ b/packages/redaction/src/generic/redact-url.ts
@@ -3,6 +3,10 @@ import { asterixOut } from "./asterix-out";
 export const redactUrl = (url: string) => {
   try {
     const parsedUrl = new URL(url);
+    if (parsedUrl.host === "" && !parsedUrl.pathname.startsWith("/")) {
+      // Opaque paths (e.g. mailto:, tel: and data: URLs) cannot be changed component by component.
+      return asterixOut(url);
+    }
     parsedUrl.password = asterixOut(parsedUrl.password);
     parsedUrl.username = asterixOut(parsedUrl.username);
     parsedUrl.hostname = "redacted.com";
-- 
2.43.0


From a053bdb58b2cb55efca9e8807b478b63724cbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 02/46] fix: do not take inherited object properties for field
 redactors

---
 .../redact-nested-fields/redact-nested-fields.ts    | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts b/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
index 719186e..d75e174 100644
--- a/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
+++ b/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
@@ -221,7 +221,7 @@ const createRedactor = <T>({
     }
 
     if (typeof value === "string") {
-      const fieldRedactor = key && strings ? (strings as any)[key] : undefined;
+      const fieldRedactor = getFieldRedactor(strings, key);
       if (!fieldRedactor) {
         const patternBasedRedactor = key
           ? findApplicablePatternBasedStringRedactor(
@@ -240,7 +240,7 @@ const createRedactor = <T>({
     }
 
     if (typeof value === "number") {
-      const fieldRedactor = key && numbers ? (numbers as any)[key] : undefined;
+      const fieldRedactor = getFieldRedactor(numbers, key);
       if (!fieldRedactor) {
         return value;
       }
@@ -248,7 +248,7 @@ const createRedactor = <T>({
     }
 
     if (typeof value === "bigint") {
-      const fieldRedactor = key && bigints ? (bigints as any)[key] : undefined;
+      const fieldRedactor = getFieldRedactor(bigints, key);
       if (!fieldRedactor) {
         return value;
       }
@@ -256,7 +256,7 @@ const createRedactor = <T>({
     }
 
     if (value instanceof Date) {
-      const fieldRedactor = key && dates ? (dates as any)[key] : undefined;
+      const fieldRedactor = getFieldRedactor(dates, key);
       if (!fieldRedactor) {
         const patternBasedRedactor = key
           ? findApplicablePatternBasedRedactor(key, patternBasedRedactors.dates)
@@ -305,6 +305,11 @@ const createRedactor = <T>({
   return redactFn;
 };
 
+const getFieldRedactor = (redactors: any, key?: string) =>
+  key && redactors && Object.prototype.hasOwnProperty.call(redactors, key)
+    ? redactors[key]
+    : undefined;
+
 const findApplicablePatternBasedRedactor = <T>(
   key: string,
   redactors: PatternBasedRedactor<string, T>[],
-- 
2.43.0


From a2120362fd2025874dde81a37e83109addf45f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 03/46] fix: honour the default string redactor set on the
 nested fields builder

---
 .../redact-nested-fields.ts                   | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts b/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
index d75e174..3803743 100644
--- a/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
+++ b/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
@@ -53,7 +53,11 @@ export class NestedFieldsRedactor<
     return new NestedFieldsRedactor<
       HANDLED_STRING_KEY_TYPES & KEY_TYPE,
       HANDLED_DATE_KEY_TYPES
-    >([...this.stringRedactors, redactor], this.dateRedactors);
+    >(
+      [...this.stringRedactors, redactor],
+      this.dateRedactors,
+      this.defaultStringRedactor,
+    );
   }
 
   public withPatternBasedStringRedactors<KEY_TYPE extends string>(
@@ -65,7 +69,11 @@ export class NestedFieldsRedactor<
     return new NestedFieldsRedactor<
       HANDLED_STRING_KEY_TYPES | KEY_TYPE,
       HANDLED_DATE_KEY_TYPES
-    >([...this.stringRedactors, ...set.redactors], this.dateRedactors);
+    >(
+      [...this.stringRedactors, ...set.redactors],
+      this.dateRedactors,
+      this.defaultStringRedactor,
+    );
   }
 
   public withPatternBasedDateRedactor<KEY_TYPE extends string>(
@@ -77,7 +85,11 @@ export class NestedFieldsRedactor<
     return new NestedFieldsRedactor<
       HANDLED_STRING_KEY_TYPES,
       HANDLED_DATE_KEY_TYPES | KEY_TYPE
-    >(this.stringRedactors, [...this.dateRedactors, redactor]);
+    >(
+      this.stringRedactors,
+      [...this.dateRedactors, redactor],
+      this.defaultStringRedactor,
+    );
   }
 
   public withPatternBasedDateRedactors<KEY_TYPE extends string>(
@@ -89,7 +101,11 @@ export class NestedFieldsRedactor<
     return new NestedFieldsRedactor<
       HANDLED_STRING_KEY_TYPES,
       HANDLED_DATE_KEY_TYPES | KEY_TYPE
-    >(this.stringRedactors, [...this.dateRedactors, ...set.redactors]);
+    >(
+      this.stringRedactors,
+      [...this.dateRedactors, ...set.redactors],
+      this.defaultStringRedactor,
+    );
   }
 
   /**
@@ -109,6 +125,8 @@ export class NestedFieldsRedactor<
   }) {
     return createRedactor({
       ...opts,
+      defaultStringRedactor:
+        opts.defaultStringRedactor ?? this.defaultStringRedactor,
       patternBasedRedactors: {
         strings: this.stringRedactors,
         dates: this.dateRedactors,
@@ -134,6 +152,8 @@ export class NestedFieldsRedactor<
   }) {
     return createRedactor({
       ...opts,
+      defaultStringRedactor:
+        opts.defaultStringRedactor ?? this.defaultStringRedactor,
       patternBasedRedactors: {
         strings: this.stringRedactors,
         dates: this.dateRedactors,
@@ -156,6 +176,8 @@ export class NestedFieldsRedactor<
   }): ((value: T) => T) => {
     return createRedactor({
       ...opts,
+      defaultStringRedactor:
+        opts.defaultStringRedactor ?? this.defaultStringRedactor,
       patternBasedRedactors: {
         strings: this.stringRedactors,
         dates: this.dateRedactors,
-- 
2.43.0


From 531fdeafe0f6394e9f27d85ae9fded269eabf543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 04/46] fix: apply JSON response transforms to every matching
 response when the expression is global or sticky

---
 .../src/network-responses/transform-json-response.ts      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/redaction/src/network-responses/transform-json-response.ts b/packages/redaction/src/network-responses/transform-json-response.ts
index e53d589..8105d3b 100644
--- a/packages/redaction/src/network-responses/transform-json-response.ts
+++ b/packages/redaction/src/network-responses/transform-json-response.ts
@@ -40,8 +40,12 @@ export const transformJsonResponse = <T>({
       response: HarResponse,
       metadata: NetworkResponseMetadata,
     ) => {
-      if (urlRegExp && !urlRegExp.test(metadata.request.url)) {
-        return response;
+      if (urlRegExp) {
+        // A global or sticky expression would otherwise resume from its previous match.
+        urlRegExp.lastIndex = 0;
+        if (!urlRegExp.test(metadata.request.url)) {
+          return response;
+        }
       }
 
       let parsed: T;
-- 
2.43.0


From 638658696f7f029e1d285f9e36948e10aa20aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 05/46] fix: inject the recorder after <head>, not after other
 tags that start with head-

---
 packages/recorder-plugin/src/core/inject-html.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/recorder-plugin/src/core/inject-html.ts b/packages/recorder-plugin/src/core/inject-html.ts
index bef56bc..d7e5847 100644
--- a/packages/recorder-plugin/src/core/inject-html.ts
+++ b/packages/recorder-plugin/src/core/inject-html.ts
@@ -15,7 +15,7 @@ const buildPlaceholderRegex = (placeholderAttribute: string): RegExp =>
     "i",
   );
 
-const HEAD_OPEN_REGEX = /<head\b[^>]*>/i;
+const HEAD_OPEN_REGEX = /<head(?![-\w])[^>]*>/i;
 
 const replacePlaceholder = (
   html: string,
-- 
2.43.0


From 786080cb12f6a427c9921251f29fc08aaba649e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 06/46] fix: keep a __proto__ field when redacting a request
 body

---
 packages/backend-recorder-workerd/src/redact-body.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/packages/backend-recorder-workerd/src/redact-body.ts b/packages/backend-recorder-workerd/src/redact-body.ts
index 6e7ae25..e4257b7 100644
--- a/packages/backend-recorder-workerd/src/redact-body.ts
+++ b/packages/backend-recorder-workerd/src/redact-body.ts
@@ -67,9 +67,11 @@ const redactValue = (value: unknown): unknown => {
   if (value === null || typeof value !== "object") {
     return value;
   }
-  const result: Record<string, unknown> = {};
-  for (const [key, nested] of Object.entries(value)) {
-    result[key] = isSecretKey(key) ? STR_REDACTED : redactValue(nested);
-  }
-  return result;
+  // fromEntries defines every key as an own property, "__proto__" included.
+  return Object.fromEntries(
+    Object.entries(value).map(([key, nested]) => [
+      key,
+      isSecretKey(key) ? STR_REDACTED : redactValue(nested),
+    ]),
+  );
 };
-- 
2.43.0


From d0351b7d4108b3a1d94507680c27ba9a80ba9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 07/46] fix: redact a repeated credential parameter whose first
 value is empty

---
 packages/backend-recorder-workerd/src/spans/url-redaction.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/backend-recorder-workerd/src/spans/url-redaction.ts b/packages/backend-recorder-workerd/src/spans/url-redaction.ts
index 5c666f5..95a76ce 100644
--- a/packages/backend-recorder-workerd/src/spans/url-redaction.ts
+++ b/packages/backend-recorder-workerd/src/spans/url-redaction.ts
@@ -26,7 +26,7 @@ const QUERY_STRINGS_TO_REDACT = [
 export const redactUrlCredentials = (url: URL): URL => {
   const redacted = new URL(url.href);
   for (const sensitiveParam of QUERY_STRINGS_TO_REDACT) {
-    if (redacted.searchParams.get(sensitiveParam)) {
+    if (redacted.searchParams.getAll(sensitiveParam).some(Boolean)) {
       redacted.searchParams.set(sensitiveParam, STR_REDACTED);
     }
   }
-- 
2.43.0


From 9ba61df590821bdb3116f7ddaeb4df582a405f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 08/46] fix: hand back a thrown value that has no text
 representation

---
 packages/backend-recorder-workerd/src/kv-patch.ts        | 4 ++--
 packages/backend-recorder-workerd/src/log.ts             | 9 +++++++++
 .../backend-recorder-workerd/src/outbound-capture.ts     | 4 ++--
 packages/backend-recorder-workerd/src/with-meticulous.ts | 4 ++--
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/packages/backend-recorder-workerd/src/kv-patch.ts b/packages/backend-recorder-workerd/src/kv-patch.ts
index 9d124a9..9e6364a 100644
--- a/packages/backend-recorder-workerd/src/kv-patch.ts
+++ b/packages/backend-recorder-workerd/src/kv-patch.ts
@@ -1,6 +1,6 @@
 import { type RequestCaptureContext, requestCaptureContext } from "./context";
 import { type KvCaptureOutcome, serializeKvCaptureFields } from "./kv-capture";
-import { warnOnce } from "./log";
+import { describeThrown, warnOnce } from "./log";
 import type { KvOperation, KvOperationEvent } from "./protocol";
 
 /**
@@ -267,7 +267,7 @@ const captureKvOperation = async (
     result = await invoke();
   } catch (error) {
     report(ctx, operation, bindingName, args, startTimeMs, {
-      error: String(error),
+      error: describeThrown(error),
     });
     throw error;
   }
diff --git a/packages/backend-recorder-workerd/src/log.ts b/packages/backend-recorder-workerd/src/log.ts
index c5a8c32..1aaeac6 100644
--- a/packages/backend-recorder-workerd/src/log.ts
+++ b/packages/backend-recorder-workerd/src/log.ts
@@ -25,3 +25,12 @@ export const warnOnce = (
     console.warn(`[meticulous] ${message}`, error);
   }
 };
+
+/** The text of a thrown value; never throws, whatever was thrown. */
+export const describeThrown = (error: unknown): string => {
+  try {
+    return String(error);
+  } catch {
+    return "unknown error";
+  }
+};
diff --git a/packages/backend-recorder-workerd/src/outbound-capture.ts b/packages/backend-recorder-workerd/src/outbound-capture.ts
index 6d85701..ed27981 100644
--- a/packages/backend-recorder-workerd/src/outbound-capture.ts
+++ b/packages/backend-recorder-workerd/src/outbound-capture.ts
@@ -1,6 +1,6 @@
 import { readBodyWithCap, readRequestBodyWithCap } from "./body-capture";
 import type { RequestCaptureContext } from "./context";
-import { warnOnce } from "./log";
+import { describeThrown, warnOnce } from "./log";
 import {
   CAPTURED_HEADERS,
   type BindingRequestEvent,
@@ -125,7 +125,7 @@ export const captureOutboundCall = async (
     if (meta) {
       const frozenMeta = meta;
       const endTimeMs = Date.now();
-      const errorMessage = String(error);
+      const errorMessage = describeThrown(error);
       // Tracked rather than reported directly: the request body is still being read, and the
       // buffer's `close()` is what waits for it before sending the batch.
       ctx.buffer.track(
diff --git a/packages/backend-recorder-workerd/src/with-meticulous.ts b/packages/backend-recorder-workerd/src/with-meticulous.ts
index 56fc186..e8d121d 100644
--- a/packages/backend-recorder-workerd/src/with-meticulous.ts
+++ b/packages/backend-recorder-workerd/src/with-meticulous.ts
@@ -8,7 +8,7 @@ import {
 import { runReplayWithCoverage } from "./coverage/replay-coverage";
 import { installFetchPatch } from "./fetch-patch";
 import { installKvPatch } from "./kv-patch";
-import { warnOnce } from "./log";
+import { describeThrown, warnOnce } from "./log";
 import { getOriginalFetch } from "./original-fetch";
 import { headersToRecord } from "./outbound-capture";
 import {
@@ -216,7 +216,7 @@ export const runWithMeticulous = async (
   try {
     response = await requestCaptureContext.run(captureCtx, invokeHandler);
   } catch (error) {
-    reportInbound({ error: String(error) });
+    reportInbound({ error: describeThrown(error) });
     closeBuffer(captureCtx);
     throw error;
   }
-- 
2.43.0


From ebffee695b246d6b5126743caa8de8d68ba5b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 09/46] fix: the sidecar worker answers a JSON null report with
 400 instead of throwing

---
 packages/backend-recorder-sidecar-worker/src/index.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/backend-recorder-sidecar-worker/src/index.ts b/packages/backend-recorder-sidecar-worker/src/index.ts
index 08e7951..6036e8f 100644
--- a/packages/backend-recorder-sidecar-worker/src/index.ts
+++ b/packages/backend-recorder-sidecar-worker/src/index.ts
@@ -126,13 +126,13 @@ export default {
       return json(413, { error: "payload too large" });
     }
 
-    let payload: CaptureEventsPayload;
+    let payload: CaptureEventsPayload | null;
     try {
-      payload = (await request.json()) as CaptureEventsPayload;
+      payload = (await request.json()) as CaptureEventsPayload | null;
     } catch {
       return json(400, { error: "invalid JSON" });
     }
-    if (!Array.isArray(payload.events)) {
+    if (!Array.isArray(payload?.events)) {
       return json(400, { error: "missing events array" });
     }
     if (payload.events.length === 0) {
-- 
2.43.0


From 8a6386731bddde343922e2b530db709dbb4925b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 10/46] fix: a captured error of JSON null is read back as the
 fallback error

deserializeCapturedError destructured the parsed value directly, so the text
"null" made it throw a TypeError instead of returning an error.
---
 packages/backend-recorder-workerd/src/error-capture.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/backend-recorder-workerd/src/error-capture.ts b/packages/backend-recorder-workerd/src/error-capture.ts
index 914d510..b5e0c02 100644
--- a/packages/backend-recorder-workerd/src/error-capture.ts
+++ b/packages/backend-recorder-workerd/src/error-capture.ts
@@ -59,13 +59,13 @@ export const deserializeCapturedError = (
     fallbackMessage,
   }: { unparseableMessage: string; fallbackMessage: string },
 ): Error => {
-  let parsed: Record<string, unknown>;
+  let parsed: Record<string, unknown> | null;
   try {
-    parsed = JSON.parse(json) as Record<string, unknown>;
+    parsed = JSON.parse(json) as Record<string, unknown> | null;
   } catch {
     return new Error(unparseableMessage);
   }
-  const { message, name, ...fields } = parsed;
+  const { message, name, ...fields }: Record<string, unknown> = parsed ?? {};
   const error = Object.assign(
     new Error(typeof message === "string" ? message : fallbackMessage),
     fields,
-- 
2.43.0


From 9b090de4df56a065c144d2c57333601f2d340984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 11/46] fix: rewrite a Meticulous entry that is not a table of
 its own

A nested table such as [mcp_servers.Meticulous.env], or an array of tables,
holding only the official url was taken for the canonical entry and left as it
was, so Codex had no Meticulous server.
---
 .../cli/src/commands/onboard/codex-mcp.ts     | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/packages/cli/src/commands/onboard/codex-mcp.ts b/packages/cli/src/commands/onboard/codex-mcp.ts
index 8baee66..a4c07fc 100644
--- a/packages/cli/src/commands/onboard/codex-mcp.ts
+++ b/packages/cli/src/commands/onboard/codex-mcp.ts
@@ -23,6 +23,7 @@ export const mergeCodexMcp = (
   // `[mcp_servers.Meticulous.*]` included). A single canonical body is the
   // only case that may stay as-is.
   const sectionBodies: string[] = [];
+  let isServerTable = true;
   let remainder = existing;
   for (;;) {
     const split = splitCodexMeticulousSection(remainder);
@@ -31,6 +32,7 @@ export const mergeCodexMcp = (
       break;
     }
     sectionBodies.push(split.sectionBody);
+    isServerTable &&= split.isServerTable;
     remainder = split.remainder;
   }
 
@@ -53,9 +55,11 @@ export const mergeCodexMcp = (
 
   // Same rule as JSON: the section must exist *and* contain only the
   // canonical `url` — a bare header (or a header with `command`/`args`/etc.)
-  // must be overwritten.
+  // must be overwritten. So must a nested table or an array of tables, where
+  // that `url` does not configure the server.
   if (
     sectionBodies.length === 1 &&
+    isServerTable &&
     isCanonicalCodexMeticulousSectionBody(sectionBodies[0], mcpUrl)
   ) {
     return;
@@ -285,14 +289,19 @@ const findCodexBlocker = (contents: string): CodexBlocker | null => {
  */
 export const splitCodexMeticulousSection = (
   contents: string,
-): { remainder: string; sectionBody: string | null } => {
+): {
+  remainder: string;
+  sectionBody: string | null;
+  /** Whether the header is a plain `[mcp_servers.Meticulous]` table. */
+  isServerTable: boolean;
+} => {
   const lines = contents.split(/(?<=\n)/u);
   const headerIndex = lines.findIndex((line) => {
     const path = parseTomlTableHeaderPath(line);
     return path !== null && isMeticulousMcpPath(path);
   });
   if (headerIndex === -1) {
-    return { remainder: contents, sectionBody: null };
+    return { remainder: contents, sectionBody: null, isServerTable: false };
   }
 
   // The section body runs until the next header of any table.
@@ -314,7 +323,12 @@ export const splitCodexMeticulousSection = (
       ? afterSection.replace(/^(?:\r?\n)+/u, "")
       : `${cleanedBefore}${afterSection}`;
 
-  return { remainder, sectionBody };
+  const header = lines[headerIndex];
+  const isServerTable =
+    parseTomlTableHeaderPath(header)?.length === 2 &&
+    !header.trimStart().startsWith("[[");
+
+  return { remainder, sectionBody, isServerTable };
 };
 
 /**
-- 
2.43.0


From b54222efeb05996700d03e984a024b7e7615e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 12/46] fix: see a Meticulous entry behind a byte order mark

TOML parsers skip a leading byte order mark. A first line behind one was not
recognised, so a planted definition stayed in the file.
---
 packages/cli/src/commands/onboard/codex-mcp.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/onboard/codex-mcp.ts b/packages/cli/src/commands/onboard/codex-mcp.ts
index a4c07fc..549d27b 100644
--- a/packages/cli/src/commands/onboard/codex-mcp.ts
+++ b/packages/cli/src/commands/onboard/codex-mcp.ts
@@ -15,8 +15,9 @@ export const mergeCodexMcp = (
   mcpUrl: string,
 ): void => {
   const absolutePath = resolveSafeWritePath(projectRoot, relativePath);
+  // TOML parsers skip a byte order mark, so it must not hide the first line.
   const existing = existsSync(absolutePath)
-    ? readFileSync(absolutePath, "utf8")
+    ? readFileSync(absolutePath, "utf8").replace(/^\uFEFF/u, "")
     : "";
 
   // Strip every Meticulous table (duplicates and nested
-- 
2.43.0


From 1913c73b365c1bd1b5689f2d78ed0e66cca6f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 13/46] fix: keep the caller's retry delay after the first
 retry of a download

---
 packages/downloading-helpers/src/file-downloads/download-file.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/downloading-helpers/src/file-downloads/download-file.ts b/packages/downloading-helpers/src/file-downloads/download-file.ts
index 784996b..4d002b0 100644
--- a/packages/downloading-helpers/src/file-downloads/download-file.ts
+++ b/packages/downloading-helpers/src/file-downloads/download-file.ts
@@ -154,6 +154,7 @@ export const downloadFile = async (
       firstDataTimeoutInMs,
       downloadCompleteTimeoutInMs,
       maxDownloadContentRetries: maxDownloadContentRetries - 1,
+      downloadContentRetryDelay,
     });
   }
 };
-- 
2.43.0


From d02297e05bc2f3a48f3ae8512ceacd38632a640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 14/46] fix: extract archive entries whose name merely begins
 with two dots

---
 .../src/file-downloads/download-file.ts                  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/download-file.ts b/packages/downloading-helpers/src/file-downloads/download-file.ts
index 4d002b0..1e64fbf 100644
--- a/packages/downloading-helpers/src/file-downloads/download-file.ts
+++ b/packages/downloading-helpers/src/file-downloads/download-file.ts
@@ -1,6 +1,6 @@
 import { createWriteStream, existsSync } from "fs";
 import { mkdir, rm, writeFile } from "fs/promises";
-import { dirname, isAbsolute, relative, resolve } from "path";
+import { dirname, isAbsolute, relative, resolve, sep } from "path";
 import type { Readable, Stream } from "stream";
 import { finished, Transform } from "stream";
 import { pipeline } from "stream/promises";
@@ -568,7 +568,12 @@ const extractTarWithParallelWrites = async ({
   const resolveSafeTarget = (entryPath: string): string | null => {
     const target = resolve(extractPath, entryPath);
     const rel = relative(extractPath, target);
-    if (rel === "" || rel.startsWith("..") || isAbsolute(rel)) {
+    if (
+      rel === "" ||
+      rel === ".." ||
+      rel.startsWith(`..${sep}`) ||
+      isAbsolute(rel)
+    ) {
       return null;
     }
     return target;
-- 
2.43.0


From 150216f91ac6848c3d7beeb597a49e85035e6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 15/46] fix: do not duplicate app container logs that are
 downloaded again

---
 .../src/file-downloads/app-container-logs.ts                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/downloading-helpers/src/file-downloads/app-container-logs.ts b/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
index dcda5c1..e75abe3 100644
--- a/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
+++ b/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
@@ -1,4 +1,4 @@
-import { appendFile, mkdir } from "fs/promises";
+import { appendFile, mkdir, rm } from "fs/promises";
 import { join } from "path";
 import type { AppContainerLogsLocations } from "@alwaysmeticulous/api";
 import { initLogger } from "@alwaysmeticulous/common";
@@ -44,6 +44,8 @@ const downloadPodLogs = async ({
   // The S3 objects have both Content-Type: application/gzip and Content-Encoding: gzip set,
   // so fetch automatically decompresses the response body. We save as .log (not .log.gz).
   const outputPath = join(logsDir, `${podName}.log`);
+  // An earlier download may have left (part of) the logs, which would otherwise be duplicated.
+  await rm(outputPath, { force: true });
   for (const chunkKey of chunkKeys) {
     const url = buildChunkUrl(signedBaseUrl, chunkKey);
     const response = await fetch(url);
-- 
2.43.0


From aa45d9a2405f35a0303151732d351a07c0cdcd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:43 +0000
Subject: [PATCH 16/46] fix: a failed replay download leaves no marker claiming
 a complete copy

---
 .../downloading-helpers/src/scripts/replays.ts   | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/packages/downloading-helpers/src/scripts/replays.ts b/packages/downloading-helpers/src/scripts/replays.ts
index 83f77fd..3c2dbdd 100644
--- a/packages/downloading-helpers/src/scripts/replays.ts
+++ b/packages/downloading-helpers/src/scripts/replays.ts
@@ -1,4 +1,4 @@
-import { readFile, writeFile, mkdir } from "fs/promises";
+import { readFile, rm, writeFile, mkdir } from "fs/promises";
 import { dirname, join } from "path";
 import type { MeticulousClient } from "@alwaysmeticulous/client";
 import { getReplay, getReplayV3DownloadUrls } from "@alwaysmeticulous/client";
@@ -277,8 +277,12 @@ export const getOrFetchReplayArchive = async (
     // set; the cache directory would otherwise look complete to future
     // unfiltered callers even though a swallowed best-effort failure (or an
     // exclusion) may have left it incomplete.
-    if (!bypassCache) {
-      await writeFile(previouslyDownloadedFile, downloadScope, "utf-8");
+    // What had been fully downloaded before still is, though.
+    const downloadedScope = bypassCache
+      ? previouslyDownloadedScope
+      : downloadScope;
+    if (downloadedScope !== undefined) {
+      await writeFile(previouslyDownloadedFile, downloadedScope, "utf-8");
     }
     logger.debug(`Extracted replay archive in ${replayDir}`);
     return { fileName: replayDir };
@@ -524,6 +528,12 @@ const downloadReplayV3Files = async (
         ]
       : [];
 
+  // A download that fails part-way removes or truncates files, so until it has succeeded the marker
+  // must not vouch for what is on disk.
+  await rm(join(replayDir, REPLAY_PREVIOUSLY_DOWNLOADED_FILE_NAME), {
+    force: true,
+  });
+
   const limited = pLimit(MAX_DOWNLOAD_CONCURRENCY);
   await Promise.all(
     [
-- 
2.43.0


From cb411e8488d7e1c81af84a00c00abddb9da6e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:43 +0000
Subject: [PATCH 17/46] fix: a failed test run download leaves no marker
 claiming a complete copy

---
 packages/downloading-helpers/src/file-downloads/test-runs.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/downloading-helpers/src/file-downloads/test-runs.ts b/packages/downloading-helpers/src/file-downloads/test-runs.ts
index b85b449..1e51c50 100644
--- a/packages/downloading-helpers/src/file-downloads/test-runs.ts
+++ b/packages/downloading-helpers/src/file-downloads/test-runs.ts
@@ -1,4 +1,4 @@
-import { mkdir, readFile, writeFile } from "fs/promises";
+import { mkdir, readFile, rm, writeFile } from "fs/promises";
 import { join } from "path";
 import type { TestRunDataLocations } from "@alwaysmeticulous/api";
 import type { MeticulousClient } from "@alwaysmeticulous/client";
@@ -129,6 +129,9 @@ export const getOrFetchTestRunData = async (
     }
 
     logger.info("Downloading test run data...");
+    // A download that fails part-way may truncate files, so until it has succeeded the marker
+    // must not vouch for what is on disk.
+    await rm(previouslyDownloadedFile, { force: true });
     const downloadPromises = Object.entries(testRunData)
       .filter(([fileType]) =>
         shouldDownloadTestRunFile(fileType, downloadScope),
-- 
2.43.0


From 9c64639f517fc1b0a9c64bb35a2d9d30c61ce452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 18/46] fix: a part that fails to upload fails the upload, not
 the process

---
 .../src/upload-utils/multipart-buffer-manager.ts               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts b/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts
index d2a1bb5..142171b 100644
--- a/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts
+++ b/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts
@@ -81,6 +81,9 @@ export class MultipartBufferManager {
     const uploadPromise = this.uploadLimiter(() =>
       this.uploadPart(bufferToUpload, partNumber, isLastPart),
     ).then((eTag) => ({ partNumber, eTag }));
+    // `finalize` reports a failed part, but only once the last part has been
+    // flushed: until then the rejection must not count as unhandled.
+    uploadPromise.catch(() => {});
     this.pendingUploads.push(uploadPromise);
 
     if (remainingBuffer) {
-- 
2.43.0


From daa416e2a750d0c4815d66ec3bec12c37828c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 19/46] fix: an upload whose response breaks off fails instead
 of waiting forever

---
 packages/client/src/utils/put-file-to-signed-url.ts       | 3 +++
 packages/remote-replay-launcher/src/asset-upload-utils.ts | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/packages/client/src/utils/put-file-to-signed-url.ts b/packages/client/src/utils/put-file-to-signed-url.ts
index 1447ba9..da068ce 100644
--- a/packages/client/src/utils/put-file-to-signed-url.ts
+++ b/packages/client/src/utils/put-file-to-signed-url.ts
@@ -52,6 +52,9 @@ export const putFileToSignedUrl = async ({
           responseData += chunk;
         });
 
+        // A connection lost half way through the response never emits `end`.
+        response.on("error", reject);
+
         response.on("end", () => {
           if (response.statusCode === 200) {
             resolve();
diff --git a/packages/remote-replay-launcher/src/asset-upload-utils.ts b/packages/remote-replay-launcher/src/asset-upload-utils.ts
index 22b1613..3a14b3e 100644
--- a/packages/remote-replay-launcher/src/asset-upload-utils.ts
+++ b/packages/remote-replay-launcher/src/asset-upload-utils.ts
@@ -438,6 +438,9 @@ const putBufferToSignedUrl = async (
           responseData += chunk;
         });
 
+        // A connection lost half way through the response never emits `end`.
+        response.on("error", reject);
+
         response.on("end", () => {
           if (response.statusCode === 200) {
             resolve(response.headers["etag"] ?? "");
-- 
2.43.0


From b316093d91604f00bcf82b6c6f0930af54817627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 20/46] fix: an asset chunk that cannot be written whole is not
 uploaded

---
 packages/remote-replay-launcher/src/upload-asset-chunk.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/remote-replay-launcher/src/upload-asset-chunk.ts b/packages/remote-replay-launcher/src/upload-asset-chunk.ts
index 3722122..695b207 100644
--- a/packages/remote-replay-launcher/src/upload-asset-chunk.ts
+++ b/packages/remote-replay-launcher/src/upload-asset-chunk.ts
@@ -248,7 +248,9 @@ export const writeCompressedTar = ({
       if (finalChunk.length > 0) {
         outStream.write(finalChunk);
       }
-      outStream.end(() => resolvePromise({ filePaths }));
+      // Not the callback of `end`, which is also called when a write fails.
+      outStream.once("finish", () => resolvePromise({ filePaths }));
+      outStream.end();
     });
   });
 };
-- 
2.43.0


From 5ac0882d722aad63a06b590f70fbc291e1ea065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 21/46] fix: tag images for a registry that has a port

---
 packages/remote-replay-launcher/src/docker-utils.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/remote-replay-launcher/src/docker-utils.ts b/packages/remote-replay-launcher/src/docker-utils.ts
index 09876f1..83af07f 100644
--- a/packages/remote-replay-launcher/src/docker-utils.ts
+++ b/packages/remote-replay-launcher/src/docker-utils.ts
@@ -73,7 +73,13 @@ export const tagImage = async (
   const logger = initLogger();
   try {
     const image = docker.getImage(sourceImage);
-    const [repo, tag] = targetImage.split(":");
+    // The registry may have a port, so only a colon in the last part of the
+    // reference starts the tag.
+    const [name, tag] = targetImage
+      .slice(targetImage.lastIndexOf("/") + 1)
+      .split(":");
+    const repo =
+      targetImage.slice(0, targetImage.lastIndexOf("/") + 1) + (name ?? "");
     await image.tag({ repo, tag: tag || "latest" });
     logger.info(`Tagged image ${sourceImage} as ${targetImage}`);
   } catch (error) {
-- 
2.43.0


From 96646c98e10e26cce830eb1d2f5e5feeb205b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:20 +0000
Subject: [PATCH 22/46] fix: a failed remote test run closes its tunnel and
 stops polling

When the test run could not be created, or polling it or its lock failed, executeRemoteTestRun threw without closing the tunnel or clearing its intervals, so the process never ended.
---
 .../src/execute-remote-test-run.ts            | 61 ++++++++++++++++++-
 1 file changed, 60 insertions(+), 1 deletion(-)

diff --git a/packages/remote-replay-launcher/src/execute-remote-test-run.ts b/packages/remote-replay-launcher/src/execute-remote-test-run.ts
index 0761498..ab5ed33 100644
--- a/packages/remote-replay-launcher/src/execute-remote-test-run.ts
+++ b/packages/remote-replay-launcher/src/execute-remote-test-run.ts
@@ -111,6 +111,64 @@ export const executeRemoteTestRun = async ({
     silenceTunnelWorker,
   });
 
+  try {
+    return await runTestsThroughTunnel({
+      logger,
+      client,
+      tunnel,
+      companionAssetsInfo,
+      commitSha,
+      onTunnelCreated,
+      onTestRunCreated,
+      onProgressUpdate,
+      onTunnelStillLocked,
+      keepTunnelOpenPromise,
+      environment,
+      isLockable,
+      pullRequestHostingProviderId,
+      debugContext,
+      postComment,
+    });
+  } finally {
+    tunnel.close();
+  }
+};
+
+const runTestsThroughTunnel = async ({
+  logger,
+  client,
+  tunnel,
+  companionAssetsInfo,
+  commitSha,
+  onTunnelCreated,
+  onTestRunCreated,
+  onProgressUpdate,
+  onTunnelStillLocked,
+  keepTunnelOpenPromise,
+  environment,
+  isLockable,
+  pullRequestHostingProviderId,
+  debugContext,
+  postComment,
+}: {
+  [K in
+    | "commitSha"
+    | "onTunnelCreated"
+    | "onTestRunCreated"
+    | "onProgressUpdate"
+    | "onTunnelStillLocked"
+    | "keepTunnelOpenPromise"
+    | "environment"
+    | "isLockable"
+    | "pullRequestHostingProviderId"
+    | "debugContext"]: ExecuteRemoteTestRunOptions[K];
+} & {
+  postComment: boolean;
+  logger: ReturnType<typeof initLogger>;
+  client: ReturnType<typeof createClient>;
+  tunnel: Awaited<ReturnType<typeof localtunnel>>;
+  companionAssetsInfo: CompanionAssetsInfo | undefined;
+}): Promise<ExecuteRemoteTestRunResult> => {
   logger.debug(`Creating test run`);
 
   if (!tunnel.url || !tunnel.basicAuthUser || !tunnel.basicAuthPassword) {
@@ -236,6 +294,7 @@ export const executeRemoteTestRun = async ({
       }
       await resourceTracker.checkUsage();
     })().catch((error: unknown) => {
+      clearInterval(progressUpdateInterval);
       testRunCompleted.reject(
         error instanceof Error ? error : new Error(String(error)),
       );
@@ -260,6 +319,7 @@ export const executeRemoteTestRun = async ({
   if (!alreadyUnlocked) {
     tunnelCheckInterval = setInterval(() => {
       checkUnlocked().catch((error: unknown) => {
+        clearInterval(tunnelCheckInterval);
         tunnelUnlocked.reject(
           error instanceof Error ? error : new Error(String(error)),
         );
@@ -274,7 +334,6 @@ export const executeRemoteTestRun = async ({
   if (keepTunnelOpenPromise) {
     await keepTunnelOpenPromise;
   }
-  tunnel.close();
 
   return {
     testRun: completedTestRun,
-- 
2.43.0


From 52f3a9eec17e29bf3d151b7f443991e6450a7b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 23/46] fix: a response that offers an upgrade no longer stops
 the tunnel worker

HTTP/2 forbids all connection-specific headers, so writeHead threw ERR_HTTP2_INVALID_CONNECTION_HEADERS for an app that sends e.g. 'Upgrade: h2,h2c', and the uncaught error ended the worker.
---
 packages/tunnel-client/src/lib/tunnel-http2-cluster.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
index d49db55..f79b236 100644
--- a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
+++ b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
@@ -152,6 +152,9 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
             "keep-alive": _,
 
             "transfer-encoding": __,
+            upgrade,
+            "proxy-connection": ___,
+            "http2-settings": ____,
             ...headersToForward
           } = clientRes.headers;
 
-- 
2.43.0


From dd0e24fbbedf146621359f0de3fbd60384ea4648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 24/46] fix: proxy requests to hosts on other than the default
 port

The host passed to http.request included the port, so it was looked up as a name ('host:8080') and never found.
---
 packages/tunnel-client/src/lib/tunnel-http2-cluster.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
index f79b236..632cad1 100644
--- a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
+++ b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
@@ -207,7 +207,7 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
         return defaultTarget;
       }
       const parsed = new URL(originalUrl.toString());
-      const hostToRequest = parsed.host;
+      const hostToRequest = parsed.hostname;
       if (this.isRequestToTunnelServer(hostToRequest)) {
         // This is actually a request to the tunnel server itself. If we forward it, we will
         // end up in an infinite loop. We want to dispatch this request to the local server.
-- 
2.43.0


From 4e189242a667d42967d3fdb17db229e6227d50a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 25/46] fix: open as many tunnel connections as asked for

http2Connections was accepted but never reached the code that starts the workers.
---
 packages/tunnel-client/src/lib/tunnel.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/tunnel-client/src/lib/tunnel.ts b/packages/tunnel-client/src/lib/tunnel.ts
index 9ef8e95..9174082 100644
--- a/packages/tunnel-client/src/lib/tunnel.ts
+++ b/packages/tunnel-client/src/lib/tunnel.ts
@@ -84,6 +84,7 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
       proxyAllUrls,
       rewriteHostnameToAppUrl,
       enableDnsCache,
+      http2Connections,
     } = this.opts;
     const parsedHost = new URL(url);
 
@@ -117,6 +118,7 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
       proxyAllUrls,
       rewriteHostnameToAppUrl,
       enableDnsCache,
+      http2Connections,
     };
   }
 
-- 
2.43.0


From f40a3d958baf3899e3e6f2e9e24cdfb57d3f29fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 26/46] fix: a tunnel that cannot be established is an error
 for who opened it

The error was emitted as an event nobody can listen to yet, which ended the process with an unhandled rejection, and the callback was never called.
---
 packages/tunnel-client/src/lib/tunnel.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/tunnel-client/src/lib/tunnel.ts b/packages/tunnel-client/src/lib/tunnel.ts
index 9174082..d55ce67 100644
--- a/packages/tunnel-client/src/lib/tunnel.ts
+++ b/packages/tunnel-client/src/lib/tunnel.ts
@@ -329,7 +329,7 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
           cb();
         })
         .catch((err) => {
-          this.emit("error", err);
+          cb(err);
         });
     });
   }
-- 
2.43.0


From 0f73c06bc536c78340e0ba8f7c7d3ea901c68592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 27/46] fix: a rejected tunnel request fails whatever its body

A 401 or 403 whose body is not JSON was taken for a server that is offline, and asked for again every second without end.
---
 packages/tunnel-client/src/lib/tunnel.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/tunnel-client/src/lib/tunnel.ts b/packages/tunnel-client/src/lib/tunnel.ts
index d55ce67..af3c8c2 100644
--- a/packages/tunnel-client/src/lib/tunnel.ts
+++ b/packages/tunnel-client/src/lib/tunnel.ts
@@ -159,8 +159,6 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
         headers,
       })
         .then(async (res) => {
-          const body = await res.json();
-          this.logger.debug("got tunnel information", body);
           if (res.status === 401 || res.status === 403) {
             return cb(
               new Error(
@@ -170,6 +168,8 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
               ),
             );
           }
+          const body = await res.json();
+          this.logger.debug("got tunnel information", body);
           if (res.status !== 200) {
             const err = new Error(
               (body &&
-- 
2.43.0


From 098258424c731236c15e885ce45838d22f9f466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 28/46] fix: accept every success a proxy answers CONNECT with

Only the reason phrases 'Connection established' and 'OK' were accepted; many proxies say 'Connection Established', or something else.
---
 packages/tunnel-client/src/utils/open-socket.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/packages/tunnel-client/src/utils/open-socket.ts b/packages/tunnel-client/src/utils/open-socket.ts
index b5e7688..67a49cc 100644
--- a/packages/tunnel-client/src/utils/open-socket.ts
+++ b/packages/tunnel-client/src/utils/open-socket.ts
@@ -45,10 +45,7 @@ const createProxyConnection = async (
 
       const onData = (data: Buffer) => {
         const response = data.toString();
-        if (
-          response.includes("200 Connection established") ||
-          response.includes("200 OK")
-        ) {
+        if (/^HTTP\/1\.[01] 2\d\d/.test(response)) {
           proxySocket.removeListener("data", onData);
           resolve();
         } else {
-- 
2.43.0


From 8e2322f3ce65318b05764c11db97833fbf6e1672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 29/46] fix: open tunnel connections without TLS through a
 proxy

createProxyConnection returns a socket that is connected, so its connect event, which was waited for, never comes.
---
 packages/tunnel-client/src/utils/open-socket.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/tunnel-client/src/utils/open-socket.ts b/packages/tunnel-client/src/utils/open-socket.ts
index 67a49cc..9a5641b 100644
--- a/packages/tunnel-client/src/utils/open-socket.ts
+++ b/packages/tunnel-client/src/utils/open-socket.ts
@@ -142,7 +142,7 @@ export const openSocket = async ({
   const connectEvent = useTls ? "secureConnect" : "connect";
 
   await new Promise<void>((resolve, reject) => {
-    socket.once(connectEvent, () => {
+    const authenticate = () => {
       // Send the tunnel passphrase to the server
       socket.write(`AUTH ${tunnelPassphrase}`);
 
@@ -168,7 +168,14 @@ export const openSocket = async ({
           resolve();
         }
       });
-    });
+    };
+
+    if (proxyUrl && !useTls) {
+      // The connection to the proxy is the socket, and open already
+      authenticate();
+    } else {
+      socket.once(connectEvent, authenticate);
+    }
 
     socket.once("error", reject);
   });
-- 
2.43.0


From 073419e39c8e132ebcbf61433f576b5330e8d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 30/46] fix: read a proxy's whole CONNECT answer before using
 the connection

---
 packages/tunnel-client/src/utils/open-socket.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/tunnel-client/src/utils/open-socket.ts b/packages/tunnel-client/src/utils/open-socket.ts
index 9a5641b..0e59767 100644
--- a/packages/tunnel-client/src/utils/open-socket.ts
+++ b/packages/tunnel-client/src/utils/open-socket.ts
@@ -43,13 +43,17 @@ const createProxyConnection = async (
 
       proxySocket.write(connectRequest);
 
+      let response = "";
       const onData = (data: Buffer) => {
-        const response = data.toString();
+        response += data.toString();
+        if (!response.includes("\r\n\r\n")) {
+          // The rest of the response headers is still to come
+          return;
+        }
+        proxySocket.removeListener("data", onData);
         if (/^HTTP\/1\.[01] 2\d\d/.test(response)) {
-          proxySocket.removeListener("data", onData);
           resolve();
         } else {
-          proxySocket.removeListener("data", onData);
           reject(
             new Error(`Proxy CONNECT failed: ${response.split("\r\n")[0]}`),
           );
-- 
2.43.0


From 59ea40b9e8cc136198064786d4aaf2b2c2ea404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 31/46] fix: opening a tunnel fails when the proxy closes the
 connection

---
 packages/tunnel-client/src/utils/open-socket.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/tunnel-client/src/utils/open-socket.ts b/packages/tunnel-client/src/utils/open-socket.ts
index 0e59767..f32f41a 100644
--- a/packages/tunnel-client/src/utils/open-socket.ts
+++ b/packages/tunnel-client/src/utils/open-socket.ts
@@ -64,6 +64,9 @@ const createProxyConnection = async (
     });
 
     proxySocket.once("error", reject);
+    proxySocket.once("close", () => {
+      reject(new Error("Proxy closed the connection"));
+    });
   });
 
   if (useTls) {
-- 
2.43.0


From 58763aa7e8032df4af5526fe49af938a1d170b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 32/46] fix: a request through the tunnel is answered when the
 app closes the connection

---
 packages/tunnel-client/src/lib/tunnel-http2-cluster.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
index 632cad1..f25d926 100644
--- a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
+++ b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
@@ -168,6 +168,16 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
         },
       );
 
+      // The connection can also fail once all of the request has been sent,
+      // which the pipeline no longer tells us about
+      clientReq.on("error", (err) => {
+        if (!res.headersSent) {
+          this.logger.error("Request error", err);
+          res.writeHead(502);
+          res.end();
+        }
+      });
+
       pipeline(req, clientReq, (err) => {
         if (err) {
           this.logger.error("Request pipeline error", err);
-- 
2.43.0


From 2844b429e0a90754341447a02d13178766b43b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:34 +0000
Subject: [PATCH 33/46] fix: keep a module's hashbang on its first line when
 instrumenting it

---
 .../backend-recorder-workerd/src/vite/instrument.ts   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/backend-recorder-workerd/src/vite/instrument.ts b/packages/backend-recorder-workerd/src/vite/instrument.ts
index 5a8937d..99237e0 100644
--- a/packages/backend-recorder-workerd/src/vite/instrument.ts
+++ b/packages/backend-recorder-workerd/src/vite/instrument.ts
@@ -184,9 +184,14 @@ export const instrumentModule = ({
     return null;
   }
 
-  magic.prepend(
-    `import {__mcEnter as ${ENTER},__mcHit as ${HIT}} from ${JSON.stringify(runtimeModuleId)};\n`,
-  );
+  const runtimeImport = `import {__mcEnter as ${ENTER},__mcHit as ${HIT}} from ${JSON.stringify(runtimeModuleId)};`;
+  const hashbang = /^#!.*/.exec(code);
+  if (hashbang === null) {
+    magic.prepend(`${runtimeImport}\n`);
+  } else {
+    // A hashbang is only valid as the very first line.
+    magic.appendLeft(hashbang[0].length, `\n${runtimeImport}`);
+  }
 
   return {
     code: magic.toString(),
-- 
2.43.0


From 9683669c098d729bf94386eeb210834792febad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:55 +0000
Subject: [PATCH 34/46] fix: exclude a module whatever was matched before it

---
 packages/backend-recorder-workerd/src/vite/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/backend-recorder-workerd/src/vite/index.ts b/packages/backend-recorder-workerd/src/vite/index.ts
index 3bd5bde..ba29812 100644
--- a/packages/backend-recorder-workerd/src/vite/index.ts
+++ b/packages/backend-recorder-workerd/src/vite/index.ts
@@ -366,7 +366,8 @@ const isInstrumentable = (filePath: string, exclude: RegExp[]): boolean => {
   if (filePath.startsWith(ROLLUP_VIRTUAL_PREFIX)) {
     return false;
   }
-  if (exclude.some((pattern) => pattern.test(filePath))) {
+  // Not `test`, which carries state between calls for a global pattern.
+  if (exclude.some((pattern) => filePath.search(pattern) !== -1)) {
     return false;
   }
   return INSTRUMENTABLE_EXTENSIONS.has(path.extname(filePath));
-- 
2.43.0


From c8d5aca41a89125b4d620535db66740e908bb968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:07 +0000
Subject: [PATCH 35/46] fix: git output of more than a megabyte is not a
 failure

---
 .../commands/local/get-edited-files.utils.ts  |  2 +-
 packages/common/src/commit-sha.utils.ts       | 41 ++++++++++++-------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/packages/cli/src/commands/local/get-edited-files.utils.ts b/packages/cli/src/commands/local/get-edited-files.utils.ts
index 5f70682..28ecc38 100644
--- a/packages/cli/src/commands/local/get-edited-files.utils.ts
+++ b/packages/cli/src/commands/local/get-edited-files.utils.ts
@@ -7,7 +7,7 @@ export const getGitDiff = (baseSha: string, cwd?: string): Promise<string> => {
     execFile(
       "git",
       ["diff", baseSha, "--unified=0"],
-      { encoding: "utf-8", cwd },
+      { encoding: "utf-8", cwd, maxBuffer: Number.POSITIVE_INFINITY },
       (error, output) => {
         if (error) {
           reject(error instanceof Error ? error : new Error(String(error)));
diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index d084491..8f717c7 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -1,15 +1,23 @@
 import { exec, execFile } from "child_process";
 import { initLogger } from "./logger/console-logger";
 
+// Node fails a command whose output exceeds 1 MiB unless told otherwise, and
+// diffs and file lists of real repositories do.
+const GIT_MAX_OUTPUT_BYTES = Number.POSITIVE_INFINITY;
+
 const execPromise = (command: string, cwd?: string): Promise<string> => {
   return new Promise((resolve, reject) => {
-    exec(command, { encoding: "utf-8", cwd }, (error, output) => {
-      if (error) {
-        reject(error);
-        return;
-      }
-      resolve(output.trim());
-    });
+    exec(
+      command,
+      { encoding: "utf-8", cwd, maxBuffer: GIT_MAX_OUTPUT_BYTES },
+      (error, output) => {
+        if (error) {
+          reject(error);
+          return;
+        }
+        resolve(output.trim());
+      },
+    );
   });
 };
 
@@ -19,13 +27,18 @@ const execFilePromise = (
   cwd?: string,
 ): Promise<string> => {
   return new Promise((resolve, reject) => {
-    execFile(file, args, { encoding: "utf-8", cwd }, (error, output) => {
-      if (error) {
-        reject(error instanceof Error ? error : new Error(String(error)));
-        return;
-      }
-      resolve(output.trim());
-    });
+    execFile(
+      file,
+      args,
+      { encoding: "utf-8", cwd, maxBuffer: GIT_MAX_OUTPUT_BYTES },
+      (error, output) => {
+        if (error) {
+          reject(error instanceof Error ? error : new Error(String(error)));
+          return;
+        }
+        resolve(output.trim());
+      },
+    );
   });
 };
 
-- 
2.43.0


From 4b30e723177838ef5efecd8526e6199111ff00b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:07 +0000
Subject: [PATCH 36/46] fix: a git diff is passed on as it is, with its last
 lines

---
 packages/common/src/commit-sha.utils.ts | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index 8f717c7..14be4de 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -36,7 +36,7 @@ const execFilePromise = (
           reject(error instanceof Error ? error : new Error(String(error)));
           return;
         }
-        resolve(output.trim());
+        resolve(output);
       },
     );
   });
@@ -165,11 +165,9 @@ export const getLocalBaseSha = async (options?: {
 
   for (const candidate of uniqueCandidates) {
     try {
-      const mergeBase = await execFilePromise(
-        "git",
-        ["merge-base", candidate, "HEAD"],
-        cwd,
-      );
+      const mergeBase = (
+        await execFilePromise("git", ["merge-base", candidate, "HEAD"], cwd)
+      ).trim();
       logger.debug(`Computed merge-base with '${candidate}': ${mergeBase}`);
       return mergeBase;
     } catch {
-- 
2.43.0


From 45580eebd7e3708d73460aadeb76ddd9f7c21823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:07 +0000
Subject: [PATCH 37/46] fix: lines added between two lines are found beside
 those lines

---
 packages/cli/src/commands/local/get-edited-files.utils.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/local/get-edited-files.utils.ts b/packages/cli/src/commands/local/get-edited-files.utils.ts
index 28ecc38..b9e451d 100644
--- a/packages/cli/src/commands/local/get-edited-files.utils.ts
+++ b/packages/cli/src/commands/local/get-edited-files.utils.ts
@@ -44,7 +44,10 @@ export const parseGitDiffToEditedFiles = (
     let lastDeletedLine: number | null = null;
 
     for (const chunk of modifiedFile.chunks) {
-      let currentOriginalLine = chunk.oldStart - 1;
+      // A chunk without old lines (a pure addition, without context) starts
+      // after the line it names.
+      let currentOriginalLine =
+        chunk.oldLines === 0 ? chunk.oldStart : chunk.oldStart - 1;
 
       for (const change of chunk.changes) {
         if (change.type === "del") {
-- 
2.43.0


From 1acb4d4189af506c32f0f65c7b6c1f8b353d00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:07 +0000
Subject: [PATCH 38/46] fix: lines between two deletions are not deleted

---
 .../cli/src/commands/local/get-edited-files.utils.ts  | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/packages/cli/src/commands/local/get-edited-files.utils.ts b/packages/cli/src/commands/local/get-edited-files.utils.ts
index b9e451d..73a5a9a 100644
--- a/packages/cli/src/commands/local/get-edited-files.utils.ts
+++ b/packages/cli/src/commands/local/get-edited-files.utils.ts
@@ -40,10 +40,9 @@ export const parseGitDiffToEditedFiles = (
     }
 
     const editedRanges: [number, number][] = [];
-    let firstDeletedLine: number | null = null;
-    let lastDeletedLine: number | null = null;
-
     for (const chunk of modifiedFile.chunks) {
+      let firstDeletedLine: number | null = null;
+      let lastDeletedLine: number | null = null;
       // A chunk without old lines (a pure addition, without context) starts
       // after the line it names.
       let currentOriginalLine =
@@ -84,10 +83,10 @@ export const parseGitDiffToEditedFiles = (
           }
         }
       }
-    }
 
-    if (firstDeletedLine !== null && lastDeletedLine !== null) {
-      editedRanges.push([firstDeletedLine, lastDeletedLine]);
+      if (firstDeletedLine !== null && lastDeletedLine !== null) {
+        editedRanges.push([firstDeletedLine, lastDeletedLine]);
+      }
     }
 
     result.push({
-- 
2.43.0


From 19e2d70ecec9721c703d2e0a57bde03c3a957de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:48 +0000
Subject: [PATCH 39/46] fix: lines added at the top of a file are found beside
 its first line

---
 .../commands/local/get-edited-files.utils.ts  | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/packages/cli/src/commands/local/get-edited-files.utils.ts b/packages/cli/src/commands/local/get-edited-files.utils.ts
index 73a5a9a..565176f 100644
--- a/packages/cli/src/commands/local/get-edited-files.utils.ts
+++ b/packages/cli/src/commands/local/get-edited-files.utils.ts
@@ -57,21 +57,21 @@ export const parseGitDiffToEditedFiles = (
           const lineBeforeAddition = currentOriginalLine;
           const lineAfterAddition = currentOriginalLine + 1;
 
-          if (lineBeforeAddition > 0) {
-            if (
-              !editedRanges.some(
-                (r) => r[0] <= lineBeforeAddition && lineBeforeAddition <= r[1],
-              )
-            ) {
-              editedRanges.push([lineBeforeAddition, lineBeforeAddition]);
-            }
-            if (
-              !editedRanges.some(
-                (r) => r[0] <= lineAfterAddition && lineAfterAddition <= r[1],
-              )
-            ) {
-              editedRanges.push([lineAfterAddition, lineAfterAddition]);
-            }
+          // There is no line before what is added at the top of a file.
+          if (
+            lineBeforeAddition > 0 &&
+            !editedRanges.some(
+              (r) => r[0] <= lineBeforeAddition && lineBeforeAddition <= r[1],
+            )
+          ) {
+            editedRanges.push([lineBeforeAddition, lineBeforeAddition]);
+          }
+          if (
+            !editedRanges.some(
+              (r) => r[0] <= lineAfterAddition && lineAfterAddition <= r[1],
+            )
+          ) {
+            editedRanges.push([lineAfterAddition, lineAfterAddition]);
           }
         } else if (change.type === "normal") {
           currentOriginalLine = change.ln1;
-- 
2.43.0


From d62dcf24e1c6211d664612409e0c97ba77a75520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:32 +0000
Subject: [PATCH 40/46] fix: untracked files elsewhere in the repository are
 seen from a subdirectory

---
 packages/common/src/commit-sha.utils.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index 14be4de..1b3bc16 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -208,7 +208,9 @@ export const getUntrackedFiles = async (options?: {
   try {
     const output = await execFilePromise(
       "git",
-      ["ls-files", "--others", "--exclude-standard"],
+      // Those of the whole repository, like a stash commit or a diff, and not
+      // only those under the current directory.
+      ["ls-files", "--others", "--exclude-standard", "--", ":/"],
       options?.cwd,
     );
     return output
-- 
2.43.0


From 9b3be4382625c79b22ceac6a1a9ad9f5b020face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:13 +0000
Subject: [PATCH 41/46] fix: stop an early network recorder that loads after it
 was asked to stop

---
 .../src/install-meticulous-intercepts.ts      | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/packages/recorder-loader/src/install-meticulous-intercepts.ts b/packages/recorder-loader/src/install-meticulous-intercepts.ts
index 080710b..5326cc3 100644
--- a/packages/recorder-loader/src/install-meticulous-intercepts.ts
+++ b/packages/recorder-loader/src/install-meticulous-intercepts.ts
@@ -104,6 +104,13 @@ export const tryInstallMeticulousIntercepts = async (
       if (timeout) {
         window.clearTimeout(timeout);
       }
+      if (requestedToStopIntercepting) {
+        // The script loaded after we timed out, and stopIntercepting() was called in the
+        // meantime, when there was nothing to dispose of yet.
+        stopIntercepting().catch((error) => {
+          console.error(error);
+        });
+      }
       resolve(interceptor);
     };
     script.onerror = () => {
@@ -119,14 +126,8 @@ export const tryInstallMeticulousIntercepts = async (
   });
 
   // Try to load the early network recorder and silence any initialisation error.
-  return promise
-    .catch((error) => {
-      console.error(error);
-      return interceptor;
-    })
-    .finally(() => {
-      if (requestedToStopIntercepting) {
-        void stopIntercepting();
-      }
-    });
+  return promise.catch((error) => {
+    console.error(error);
+    return interceptor;
+  });
 };
-- 
2.43.0


From efa5001bb473d402b47fd7426bd725c0c8f8e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:13 +0000
Subject: [PATCH 42/46] fix: redact the rest of a timeline.ndjson when one of
 its lines cannot be read

---
 .../debug-workspace/src/generate-debug-workspace.ts  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/debug-workspace/src/generate-debug-workspace.ts b/packages/debug-workspace/src/generate-debug-workspace.ts
index 2c63614..76357ed 100644
--- a/packages/debug-workspace/src/generate-debug-workspace.ts
+++ b/packages/debug-workspace/src/generate-debug-workspace.ts
@@ -662,7 +662,17 @@ const redactCookiesAndHeadersInNdjsonFile = (filePath: string): boolean => {
       if (line.trim() === "") {
         return line;
       }
-      return JSON.stringify(redactCookiesAndHeadersInJson(JSON.parse(line)));
+      try {
+        return JSON.stringify(redactCookiesAndHeadersInJson(JSON.parse(line)));
+      } catch (error) {
+        // One unreadable line (e.g. of a truncated file) must not leave the
+        // values of every other line in place.
+        const message = error instanceof Error ? error.message : String(error);
+        console.warn(
+          `  Warning: Dropped an unreadable line from ${filePath}: ${message}`,
+        );
+        return JSON.stringify(REDACTED_VALUE_MARKER);
+      }
     });
     writeFileSync(filePath, redactedLines.join("\n"));
     return true;
-- 
2.43.0


From 8b5927d588b12cc97bf03b0b78dac956301f8a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:13 +0000
Subject: [PATCH 43/46] fix: redact logged credentials whose value contains a
 quote

---
 packages/debug-workspace/src/generate-debug-workspace.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/debug-workspace/src/generate-debug-workspace.ts b/packages/debug-workspace/src/generate-debug-workspace.ts
index 76357ed..49fd11e 100644
--- a/packages/debug-workspace/src/generate-debug-workspace.ts
+++ b/packages/debug-workspace/src/generate-debug-workspace.ts
@@ -879,7 +879,7 @@ const LOG_CREDENTIAL_REPLACEMENTS: Array<{
     // (HAR-style header/cookie entries), whether logged via `util.inspect`
     // (unquoted keys, single-quoted strings) or `JSON.stringify`.
     pattern: new RegExp(
-      `(['"]?name['"]?\\s*:\\s*['"]?(?:${CREDENTIAL_HEADER_NAMES})['"]?[\\s\\S]{0,80}?['"]?value['"]?\\s*:\\s*(['"]))[^'"\n]*\\2`,
+      `(['"]?name['"]?\\s*:\\s*['"]?(?:${CREDENTIAL_HEADER_NAMES})['"]?[\\s\\S]{0,80}?['"]?value['"]?\\s*:\\s*(['"]))(?:\\\\.|(?!\\2)[^\\\\\n])*\\2`,
       "gi",
     ),
     replacement: `$1${REDACTED_VALUE_MARKER}$2`,
-- 
2.43.0


From bb9d0a4a3b15a9d8f4799d7852bd83a6cce9fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:13 +0000
Subject: [PATCH 44/46] fix: redact credentials in log lines that are not JSON

---
 .../debug-workspace/src/generate-debug-workspace.ts    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/debug-workspace/src/generate-debug-workspace.ts b/packages/debug-workspace/src/generate-debug-workspace.ts
index 49fd11e..270bf4d 100644
--- a/packages/debug-workspace/src/generate-debug-workspace.ts
+++ b/packages/debug-workspace/src/generate-debug-workspace.ts
@@ -932,14 +932,16 @@ const redactLogCredentialsInNdjsonFile = (filePath: string): boolean => {
       if (line.trim() === "") {
         return line;
       }
-      let entry: Record<string, unknown>;
+      let entry: Record<string, unknown> | null = null;
       try {
         entry = JSON.parse(line);
       } catch {
-        return line;
+        // Not JSON (e.g. a truncated line): treated as free text below.
       }
-      if (typeof entry.message !== "string") {
-        return line;
+      if (typeof entry?.message !== "string") {
+        const redactedLine = redactLogCredentials(line);
+        changed ||= redactedLine !== line;
+        return redactedLine;
       }
       const redactedMessage = redactLogCredentials(entry.message);
       if (redactedMessage === entry.message) {
-- 
2.43.0


From 7560dc673af92c625b14ca34fbac081bef76f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:51 +0000
Subject: [PATCH 45/46] fix: keep the timeline context of every screenshot, not
 one per event number

---
 .../src/generate-debug-derived-files.ts            | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/debug-workspace/src/generate-debug-derived-files.ts b/packages/debug-workspace/src/generate-debug-derived-files.ts
index c51234c..3f56315 100644
--- a/packages/debug-workspace/src/generate-debug-derived-files.ts
+++ b/packages/debug-workspace/src/generate-debug-derived-files.ts
@@ -8,6 +8,10 @@ import {
   type ReplayDir,
   type TimelineEntry,
 } from "./replay-walk";
+import {
+  screenshotIdentifierToBaseName,
+  type ScreenshotIdentifier,
+} from "./screenshot-identifier";
 
 const NETWORK_KINDS = new Set([
   "pollyReplay",
@@ -255,7 +259,7 @@ const generateScreenshotTimelineContext = (
     }
 
     const filename = identifier
-      ? `${replayDir.role}-${replayDir.replayId}-${identifier}.txt`
+      ? `${replayDir.role}-${replayDir.replayId}-${identifier.replace(/[/\\]/g, "_")}.txt`
       : `${replayDir.role}-${replayDir.replayId}-idx${screenshotIdx}.txt`;
 
     writeFileSync(join(outDir, filename), lines.join("\n") + "\n", "utf-8");
@@ -440,6 +444,14 @@ const formatScreenshotIdentifier = (identifier: unknown): string => {
   }
   if (typeof identifier === "object") {
     const id = identifier as Record<string, unknown>;
+    // Distinct screenshots must keep distinct names: an end state, or an
+    // auxiliary screenshot, is not the one after the event of its number.
+    const baseName = screenshotIdentifierToBaseName(
+      identifier as ScreenshotIdentifier,
+    );
+    if (baseName != null) {
+      return baseName;
+    }
     if (id.variant && id.variant !== "normal") {
       return `${id.variant}-screenshot-after-event-${String(id.eventNumber ?? "?").padStart(5, "0")}`;
     }
-- 
2.43.0


From 6f8943e591413482dbd61cb75b04f3024844d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:13 +0000
Subject: [PATCH 46/46] fix: diff a debugged replay against the replay given as
 its base, not the reverse

---
 packages/debug-workspace/src/generate-debug-workspace.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/debug-workspace/src/generate-debug-workspace.ts b/packages/debug-workspace/src/generate-debug-workspace.ts
index 270bf4d..4a73f2f 100644
--- a/packages/debug-workspace/src/generate-debug-workspace.ts
+++ b/packages/debug-workspace/src/generate-debug-workspace.ts
@@ -1078,7 +1078,8 @@ const generateLogDiffs = (
       "logs.deterministic.txt",
     );
     if (existsSync(pathA) && existsSync(pathB)) {
-      generateLogDiffPair(pathA, pathB, workspaceDir, `${idA}-vs-${idB}`);
+      // The replay under debug comes first, the one it is compared to second
+      generateLogDiffPair(pathB, pathA, workspaceDir, `${idA}-vs-${idB}`);
     }
   }
 };
@@ -1461,7 +1462,7 @@ const generateParamsDiffs = (
         DEBUG_DATA_DIRECTORY,
         "replays",
         "other",
-        idA,
+        idB,
         paramsFile,
       ),
       pathB: join(
@@ -1469,7 +1470,7 @@ const generateParamsDiffs = (
         DEBUG_DATA_DIRECTORY,
         "replays",
         "other",
-        idB,
+        idA,
         paramsFile,
       ),
       label: `${idA}-vs-${idB}`,
-- 
2.43.0

