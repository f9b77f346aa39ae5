// Runs a wasm image of ../noalloc: node run.js FILE
const fs = require("fs");
let mem;
class Exit extends Error {}
const os = { call(n, a, b, c) {
  if (n === 0) { const e = new Exit(); e.code = a; throw e; }
  fs.writeSync(1, Buffer.from(mem.buffer, b >>> 0, c >>> 0));
  return 0;
} };
const i = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), { os });
mem = i.exports.memory;
try { i.exports.noalloc_main(); } catch (e) { if (e instanceof Exit) process.exit(e.code); throw e; }
