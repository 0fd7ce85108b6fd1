export const homedir = () => "/home";
export const tmpdir = () => "/tmp";
export const platform = () => "linux";
export const cpus = () => [1, 2, 3, 4].map(() => ({ times: { user: 1, nice: 0, sys: 1, idle: 98, irq: 0 } }));
export const EOL = "\n";
export default { homedir, tmpdir, platform, cpus, EOL };
