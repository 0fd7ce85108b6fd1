export const promisify = (f) => (...a) => new Promise((ok, no) => f(...a, (e, v) => (e ? no(e) : ok(v))));
