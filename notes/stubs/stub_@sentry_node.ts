export const startSpan = (_o: any, f: any) => f({ setAttribute() {}, setAttributes() {}, setStatus() {}, end() {} }); export const captureMessage = () => {}; export const captureException = () => {}; export const getActiveSpan = () => undefined; export const setTag = () => {};
