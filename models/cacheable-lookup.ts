// What was installed where is kept
export default class CacheableLookup { constructor(o) { this.options = o; } install(agent) { agent.cached = this; } uninstall(agent) { delete agent.cached; } }
