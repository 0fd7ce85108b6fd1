export class InflateRaw { process(b: Buffer) { return b; } close() {} }
export class DeflateRaw extends InflateRaw {}
