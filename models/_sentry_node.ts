// What is reported is kept
export const reported = [];
export const captureMessage = (m, o) => { reported.push([m, o]); return "id"; };
export const captureException = (e, o) => { reported.push([e, o]); return "id"; };
export const addBreadcrumb = () => {};
export const init = () => {};
export const setTag = () => {}; export const setTags = () => {}; export const setUser = () => {}; export const setContext = () => {};
const span = { setAttribute() { return span; }, setAttributes() { return span; }, setStatus() { return span; }, end() {} };
export const startSpan = (_o, f) => f(span);
export const flush = async () => true; export const close = async () => true;
export const getActiveSpan = () => undefined;
