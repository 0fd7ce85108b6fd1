export * from "/opt/veriftools/node/node_modules/acorn/dist/acorn.mjs";
