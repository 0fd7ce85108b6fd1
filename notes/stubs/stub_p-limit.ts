export default (n: number) => { let on = 0; const q: any[] = []; const next = () => { while (on < n && q.length) { on++; q.shift()(); } }; return (f: any) => new Promise((ok, no) => { q.push(() => { Promise.resolve().then(f).then(ok, no).finally(() => { on--; next(); }); }); next(); }); };
