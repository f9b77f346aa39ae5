// node run.mjs <module.wasm> <workload> [name=value ...]
import fs from 'node:fs';
const [, , file, ...args] = process.argv;
const t0 = Date.now();
let mem, inst;
const out = [];
let size = 0;
const flush = () => { if (out.length) { fs.writeSync(1, Buffer.concat(out)); out.length = 0; size = 0; } };
const host = {
  host_write: (p, n) => { out.push(Buffer.from(new Uint8Array(mem.buffer, p >>> 0, n >>> 0))); size += n >>> 0; if (size > 1 << 16) flush(); },
  host_clock: () => Date.now() - t0,
};
let code = 2;
try {
  let input = Buffer.alloc(0);
  const rest = [];
  for (const a of args) {
    if (a.startsWith('file=')) input = fs.readFileSync(a.slice(5));
    else if (a.startsWith('dict=')) rest.push('lits=' + fs.readFileSync(a.slice(5), 'utf8').trim().split(/\s+/).join(','));
    else rest.push(a);
  }
  const mod = await WebAssembly.compile(fs.readFileSync(file));
  inst = await WebAssembly.instantiate(mod, { host });
  mem = inst.exports.memory;
  const text = Buffer.from(rest.join(' '));
  const all = input.length ? Buffer.concat([text, Buffer.from([0]), input]) : text;
  const p = inst.exports.room(all.length + 1);
  new Uint8Array(mem.buffer, p >>> 0, all.length).set(all);
  code = inst.exports.run(p, all.length);
} catch (e) {
  flush();
  const c = inst ? inst.exports.crumb_case() : 0;
  const l = inst ? inst.exports.crumb_lib() !== 0 : false;
  fs.writeSync(1, `CRASH {"case":${c},"in_lib":${l},"msg":${JSON.stringify('trap: ' + e.message)}}\n`);
  code = 102;
}
flush();
process.exitCode = code;
