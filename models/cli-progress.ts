export const bars = { running: 0 };
class SingleBar { start() { this.on = true; bars.running += 1; } update() {} increment() {} stop() { if (this.on) bars.running -= 1; this.on = false; } }
export default { SingleBar, Presets: { shades_classic: {} } };
