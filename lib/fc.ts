// @ts-ignore
export * from "/opt/veriftools/node/node_modules/fast-check/lib/fast-check.js";
