// Agents keep the options they were made with
export class HttpAgent { constructor(o) { this.options = o ?? {}; this.https = false; } }
export class HttpsAgent { constructor(o) { this.options = o ?? {}; this.https = true; } }
export default HttpAgent;
