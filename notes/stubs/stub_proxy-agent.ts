import http from "http"; export class ProxyAgent extends http.Agent {}
