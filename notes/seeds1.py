import sys; sys.path.insert(0,'/verif/notes')
from plant import plant
R="redaction/src/"; RN=R+"generic/redact-nested-fields/"; P="recorder-plugin/src/"
A='import assert from "assert";\n'
plant("s04-url-password","P01",[(R+"generic/redact-url.ts","    parsedUrl.password = asterixOut(parsedUrl.password);\n    parsedUrl.username = asterixOut(parsedUrl.username);","    if (parsedUrl.username) {\n      parsedUrl.password = asterixOut(parsedUrl.password);\n      parsedUrl.username = asterixOut(parsedUrl.username);\n    }")],
"a URL with a password and no user name","the password stays",A+'import { redactUrl } from "repo:redaction/src/generic/redact-url";\nassert(!redactUrl("https://:hunter2@acme.io/a").includes("hunter2"));')
plant("s05-url-matrix","P01",[(R+"generic/redact-url.ts","/\\/[^/]+/g","/\\/[^/;]+/g")],"a path segment with matrix parameters","the parameters of the segment stay",A+'import { redactUrl } from "repo:redaction/src/generic/redact-url";\nassert(!redactUrl("https://acme.io/cart;owner=jane").includes("jane"));')
plant("s06-tld-case","P02",[(R+"generic/redact-email.ts",".includes(component)",".includes(component.toLowerCase())")],"an address component that differs from a kept one by case only","the component survives masking",A+'import { redactString } from "repo:redaction/src/generic/redact-string";\nassert.equal(redactString("bob@Ai.com"), "---@--.com");')
plant("s07-list-in-list","P03",[(RN+"redact-nested-fields.ts","const redacted = redactFn(value, key);\n        if (redacted !== value) {\n          hasRedacted = true;\n        }\n        return redacted;","const redacted = redactFn(value, Array.isArray(value) ? undefined : key);\n        if (redacted !== value) {\n          hasRedacted = true;\n        }\n        return redacted;")],"a list inside a list","elements of the inner list are not visited under the list's name",A+'import { NestedFieldsRedactor } from "repo:redaction/src/generic/redact-nested-fields/redact-nested-fields";\nconst r = NestedFieldsRedactor.builder().createRedactorLax({ strings: { names: () => "X" } });\nassert.deepEqual(r({ names: [["bob"], "al"] }), { names: [["X"], "X"] });')
plant("s08-last-element-wins","P03",[(RN+"redact-nested-fields.ts","const redacted = redactFn(value, key);\n        if (redacted !== value) {\n          hasRedacted = true;\n        }\n        return redacted;","const redacted = redactFn(value, key);\n        hasRedacted = redacted !== value;\n        return redacted;")],"a list whose last element needs no redaction","the list is returned unredacted",A+'import { NestedFieldsRedactor } from "repo:redaction/src/generic/redact-nested-fields/redact-nested-fields";\nconst r = NestedFieldsRedactor.builder().createRedactorLax({ strings: { names: () => "X" } });\nassert.deepEqual(r({ names: ["bob", null] }), { names: ["X", null] });')
plant("s09-empty-explicit","P04",[(RN+"redact-nested-fields.ts","const fieldRedactor = getFieldRedactor(dates, key);\n      if (!fieldRedactor) {","const fieldRedactor = value.getTime() === 0 ? undefined : getFieldRedactor(dates, key);\n      if (!fieldRedactor) {")],"a date at the epoch in a field with its own date redactor","the explicit redactor is skipped",A+'import { NestedFieldsRedactor } from "repo:redaction/src/generic/redact-nested-fields/redact-nested-fields";\nconst r = NestedFieldsRedactor.builder().createRedactorLax({ strings: {}, dates: { at: () => new Date(5) } });\nassert.equal((r({ at: new Date(0) }) as any).at.getTime(), 5);')
plant("s10-default-lost","P04",[(RN+"redact-nested-fields.ts","      this.stringRedactors,\n      [...this.dateRedactors, redactor],\n      this.defaultStringRedactor,","      this.stringRedactors,\n      [...this.dateRedactors, redactor],")],"a default redactor set before a date pattern is added","the default redactor is lost",A+'import { NestedFieldsRedactor } from "repo:redaction/src/generic/redact-nested-fields/redact-nested-fields";\nimport { redactKeysEndingWith } from "repo:redaction/src/generic/redact-nested-fields/pattern-based-redactors";\nconst r = NestedFieldsRedactor.builder().withDefaultStringRedactor(() => "X").withPatternBasedDateRedactor(redactKeysEndingWith("dob" as any, (d: Date) => d)).createRedactorLax({ strings: {} });\nassert.deepEqual(r({ a: "bob" }), { a: "X" });')
plant("s11-kept-too-much","P05",[(RN+"common-redactors.ts",'redactKeysEndingWith("ed_at", doNotRedact)','redactKeysEndingWith("d_at", doNotRedact)')],"a field whose name ends in d_at but not ed_at","its text is kept instead of getting the default redactor",A+'import { NestedFieldsRedactor } from "repo:redaction/src/generic/redact-nested-fields/redact-nested-fields";\nconst r = NestedFieldsRedactor.builderWithDefaults().withDefaultStringRedactor(() => "X").createRedactorLax({ strings: {} });\nassert.deepEqual(r({ found_at: "12 Main Street" }), { found_at: "X" });')
plant("s12-cvc","P05",[(RN+"common-redactors.ts",'redactKeysEndingWith("cvc", redactString)','redactKeysEndingWith("_cvc", redactString)')],"a field named cvc","the card code is not masked",A+'import { NestedFieldsRedactor } from "repo:redaction/src/generic/redact-nested-fields/redact-nested-fields";\nconst r = NestedFieldsRedactor.builderWithDefaults().createRedactorLax({ strings: {} });\nassert.deepEqual(r({ cvc: "123" }), { cvc: "000" });')
plant("s13-recursive-empty","P06",[(R+"generic/redact-recursively.ts","return redactString ? redactString(value, jsonPath) : value;","return redactString && value ? redactString(value, jsonPath) : value;")],"an empty text","the callback is not asked about it",A+'import { redactRecursively } from "repo:redaction/src/generic/redact-recursively";\nassert.deepEqual(redactRecursively({ a: "" }, { redactString: () => "X" }), { a: "X" });')
plant("s14-recursive-path","P06",[(R+"generic/redact-recursively.ts","redactValueRecursively(value, [...jsonPath, key])","redactValueRecursively(value, key ? [...jsonPath, key] : jsonPath)")],"a field with an empty name","the path misses a key",A+'import { redactRecursively } from "repo:redaction/src/generic/redact-recursively";\nlet p: any; redactRecursively({ a: { "": "x" } }, { redactString: (s, q) => { p = q; return s; } });\nassert.deepEqual(p, ["a", ""]);')
plant("s15-cookie-equals","P07",[(R+"network-requests/redact-cookies.ts",'cookie.indexOf("=")','cookie.lastIndexOf("=")')],"a cookie whose value contains an equals sign","the cookie is not masked",A+'import { redactCookies } from "repo:redaction/src/network-requests/redact-cookies";\nconst r: any = redactCookies(["sid"]).transformNetworkRequest!({ headers: [{ name: "cookie", value: "sid=abc=" }] } as any, {} as any);\nassert.equal(r.headers[0].value, "sid=******");')
plant("s16-drop-first","P07",[(R+"network-requests/drop-request-header.ts","""          headers: request.headers.filter(
            (header) => header.name.toLowerCase() !== headerName.toLowerCase(),
          ),""","""          headers: request.headers.filter(
            (header, index, all) =>
              header.name.toLowerCase() !== headerName.toLowerCase() ||
              all.findIndex((h) => h.name === header.name) !== index,
          ),""")],"the same header twice","the second occurrence stays",A+'import { dropRequestHeader } from "repo:redaction/src/network-requests/drop-request-header";\nconst r: any = dropRequestHeader("X-Key").transformNetworkRequest!({ headers: [{ name: "x-key", value: "1" }, { name: "x-key", value: "2" }] } as any, {} as any);\nassert.equal(r.headers.length, 0);')
plant("s17-json-empty","P08",[(R+"network-responses/transform-json-response.ts",'response.content.text ?? ""','response.content.text || "null"')],"an empty body with skipping turned off","the body is transformed as null instead of replaced by the marker",A+'import { transformJsonResponse } from "repo:redaction/src/network-responses/transform-json-response";\nlet n = 0; const m = transformJsonResponse<any>({ skipRedactionIfNotValidJSON: false, transform: (d) => { n++; return { d }; } });\nconst r: any = m.transformNetworkResponse!({ content: { text: "" } } as any, { request: { url: "https://a.b/" } } as any);\nassert.equal(n, 0); assert.equal(r.content.text, "<REDACTED>");')
plant("s18-filter-trim","P09",[("session-filters/src/session-filters.ts","if (regex.length > MAX_SESSION_FILTER_REGEX_LENGTH)","if (regex.trim().length > MAX_SESSION_FILTER_REGEX_LENGTH)")],"a text of over 1000 characters most of which are blank","it is accepted",A+'import { validateSessionFilter } from "repo:session-filters/src/session-filters";\nassert.equal(validateSessionFilter({ type: "session-start-url-matches-any-regex", regexes: ["a" + " ".repeat(1500)] }).valid, false);')
plant("s19-filter-sparse","P09",[("session-filters/src/session-filters.ts","  for (const regex of regexes) {\n    if (typeof regex !== \"string\") {","  for (const [index, regex] of regexes.entries()) {\n    if (index > 0 && regex === regexes[index - 1]) {\n      continue;\n    }\n    if (typeof regex !== \"string\" || regexes.length !== Object.keys(regexes).length && false) {")],"none","none",A) if False else None
plant("s20-attr-name","P10",[(P+"core/snippet.ts","/^[A-Za-z_:][-A-Za-z0-9_.:]*$/","/^[A-Za-z_:][-A-Za-z0-9_.:]*/")],"an attribute name with a valid beginning and markup after it","markup of the name reaches the page",A+'import { buildScriptTag } from "repo:recorder-plugin/src/core/snippet";\nconst t = buildScriptTag({ recordingToken: "t", snippetUrl: "u", attributes: { "x><script>alert(1)</script": true } } as any, { isProduction: false });\nassert(!t.includes("alert"));')
plant("s21-attr-quote","P10",[(P+"core/snippet.ts",""".replace(/'/g, "&#39;")""",""".replace(/(?<=\\s)'/g, "&#39;")""")],"an apostrophe not after white space","it is not escaped",A+'import { escapeAttributeValue } from "repo:recorder-plugin/src/core/snippet";\nassert.equal(escapeAttributeValue("it\'s"), "it&#39;s");')
plant("s22-replace-pattern","P11",[(P+"core/inject-html.ts","html.replace(regex, () => scriptTag)","html.replace(regex, scriptTag)")],"a script tag that contains a replacement pattern","the tag is not inserted literally",A+'import { injectIntoHtml } from "repo:recorder-plugin/src/core/inject-html";\nassert.equal(injectIntoHtml("<script data-meticulous></script>", "<script a=\\"$&amp;\\"></script>", "replace", "data-meticulous").html, "<script a=\\"$&amp;\\"></script>");')
plant("s23-rspack-case","P11",[(P+"core/rspack-html-hooks.ts","/<html\\b/i.test(original)","/<html\\b/.test(original)")],"a page whose html tag is in capitals","the page is not injected",A+'''import { tapHtmlProcessAssetsFallback } from "repo:recorder-plugin/src/core/rspack-html-hooks";
let h: any, out = ""; const compilation: any = { hooks: { processAssets: { tap: (_: any, f: any) => { h = f; } } }, updateAsset: (_: string, s: any) => { out = s.t; } };
tapHtmlProcessAssetsFallback({ compilation, compilerRspack: { Compilation: {}, sources: { RawSource: class { constructor(public t: string) {} } } } as any, pluginName: "p", scriptTag: "<script s></script>", options: { attributes: {}, snippetUrl: "u", recordingToken: "t", inject: "auto", placeholderAttribute: "data-meticulous" } as any, logger: { warn() {} } });
h({ "index.html": { source: () => "<HTML><head></head></HTML>" } });
assert(out.includes("<script s>"));''')
