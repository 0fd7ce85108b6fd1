// The real library
export default class { constructor(t) { return new globalThis.__host.MagicString(t); } }
