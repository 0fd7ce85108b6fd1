import { redactRequestBody } from "repo:backend-recorder-workerd/src/redact-body";
// stand-ins for the workerd request, response and stream objects
export const fails = (g, name) => { if (g.bool(name)) throw new Error(name); };
export const stream = (g, name, ends = ["done", "fails"]) => {
  const text = g.string(name + " text", ["", "{}", "hello"]);
  g.assume(text.length < 1000);
  const end = g.choose(name + " end", ends);
  let at = 0;
  return {
    text, end,
    getReader: () => ({
      read: () => { at++; return at === 1 && text !== "" ? Promise.resolve({ done: false, value: { text, byteLength: text.length } }) : end === "done" ? Promise.resolve({ done: true, value: undefined }) : Promise.reject(new Error("read")); },
      cancel: () => Promise.resolve(),
    }),
  };
};
export const decoder = (g) => g.setGlobal("TextDecoder", class { decode(c) { return c === undefined ? "" : c.text; } });
export const quiet = (g) => g.setGlobal("console", { warn: () => {}, log: () => {}, error: () => {}, info: () => {}, debug: () => {} });
export const request = (g, name, over = {}) => {
  const body = g.choose(name + " has body", over.body ?? [false, true]) ? stream(g, name + " body", over.ends) : null, broken = g.choose(name + " broken", over.broken ?? ["", "method", "url", "headers", "clone"]);
  const method = g.string(name + " method", ["GET", "POST"]), url = g.string(name + " url", ["https://api/x"]);
  return {
    get method() { if (broken === "method") throw new Error("method"); return method; },
    get url() { if (broken === "url") throw new Error("url"); return url; },
    get headers() { if (broken === "headers") throw new Error("headers"); return new Headers([["content-type", "text/plain"], ["authorization", "s"]]); },
    get body() { return body; },
    clone: () => { if (broken === "clone") throw new Error("clone"); return { body }; },
    broken, stream: body, rawMethod: method, rawUrl: url,
  };
};
export const response = (g, name, over = {}) => {
  const body = g.choose(name + " has body", over.body ?? [false, true]) ? stream(g, name + " body", over.ends) : null, broken = g.choose(name + " broken", over.broken ?? ["", "clone", "headers", "status", "webSocket"]);
  const status = g.int(name + " status", 100, 599), ws = g.choose(name + " is a web socket", over.ws ?? [false, true]);
  return {
    get webSocket() { if (broken === "webSocket") throw new Error("webSocket"); return ws ? {} : null; },
    get status() { if (broken === "status") throw new Error("status"); return status; },
    get headers() { if (broken === "headers") throw new Error("headers"); return new Headers([["content-type", "text/html"], ["set-cookie", "s"]]); },
    clone: () => { if (broken === "clone") throw new Error("clone"); return { body }; },
    broken, stream: body, rawStatus: status, ws,
  };
};

// the request body redaction (P12) is used through its contract: some text
export const redacted = (g) => (t) => (g.isSymbolic() ? g.uf("redacted", "string", t) : redactRequestBody(t));
export const withRedaction = (g, thunk) => g.replace(redactRequestBody, redacted(g), thunk);
// a request method that is passed on as it is written
export const anyMethod = (g, body) => {
  const m = g.string("method", ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "QUERY"]);
  g.assume(/^[A-Z]+$/.test(m) && m !== "CONNECT" && m !== "TRACE" && m !== "TRACK");
  if (body) g.assume(m !== "GET" && m !== "HEAD");
  return m;
};
// an absolute web address without user information that is none of the sidecar's
export const anyAddress = (g, notBelow) => {
  const s = g.string("address", ["https://api/a?x=1", "http://localhost:91/x", "http://localhost/v1/replay/outbound-fetch", "https://pay.example/%20", "http://[::1]:9/a"]);
  const u = g.attempt(() => new URL(s));
  g.assume(u.ok);
  g.assume((u.value.protocol === "http:" || u.value.protocol === "https:") && u.value.username === "" && u.value.password === "" && u.value.hash === "");
  g.assume(!u.value.href.startsWith(notBelow));
  return u.value.href;
};
