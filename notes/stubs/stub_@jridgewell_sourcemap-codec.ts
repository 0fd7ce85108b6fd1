export * from "/opt/veriftools/node/node_modules/@jridgewell/sourcemap-codec/dist/sourcemap-codec.mjs";
