import http from "http"; import https from "https"; export default http.Agent; export const HttpsAgent = https.Agent;
