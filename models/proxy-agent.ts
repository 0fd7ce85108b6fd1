// The proxy the environment asks for
export class ProxyAgent { constructor(o) { this.options = o; } }
