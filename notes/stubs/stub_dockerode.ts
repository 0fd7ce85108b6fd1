export default class { constructor() { return (globalThis as any).docker; } }
