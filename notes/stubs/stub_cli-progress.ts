export default { SingleBar: class { start() {} update() {} stop() {} }, Presets: {} };
