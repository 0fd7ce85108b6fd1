// Requests are recorded and answered by the contract: { data, headers }, { error, again? } (again: worth repeating), or "stalls"
export const net = { calls: [], answer: (_r) => ({ data: "", headers: {} }) };
const canceled = () => Object.assign(new Error("canceled"), { name: "CanceledError", code: "ERR_CANCELED" });
const once = (r) => new Promise((ok, no) => {
  net.calls.push(r);
  if (r.signal !== undefined) { if (r.signal.aborted) { no(canceled()); return; } r.signal.addEventListener("abort", () => no(canceled()), { once: true }); }
  const a = net.answer(r);
  if (a === "stalls") return;
  Promise.resolve().then(() => (a.error !== undefined ? no(a) : ok({ status: 200, data: a.data, headers: a.headers ?? {} })));
});
const client = (conf) => {
  const c = { retries: 0, conf };
  const send = async (r) => { for (let k = 0; ; k++) { try { return await once({ timeout: conf.timeout, ...r }); } catch (e) { if (e.error === undefined) throw e; if (!e.again || k >= c.retries) throw e.error; } } };
  c.request = send; c.get = (url, o) => send({ ...o, method: "GET", url }); c.head = (url, o) => send({ ...o, method: "HEAD", url });
  return c;
};
const create = (conf) => client(conf ?? {});
const CancelToken = { source: () => { const token = { reason: undefined }; return { token, cancel: (why) => { token.reason = why; } }; } };
export default { create, CancelToken, isAxiosError: (e) => Boolean(e && e.isAxiosError) };
