// At most n calls at a time, in order
export default (n) => {
  const waiting = []; let active = 0;
  const next = () => { while (active < n && waiting.length > 0) { active += 1; waiting.shift()(); } };
  return (f, ...a) => new Promise((ok, no) => { waiting.push(() => { Promise.resolve().then(() => f(...a)).then((v) => { active -= 1; ok(v); next(); }, (e) => { active -= 1; no(e); next(); }); }); Promise.resolve().then(next); });
};
