// Runs a harness compiled to WebAssembly: node wasm_run.js module.wasm args...
const fs = require('fs');
let inst; const out = (p, n) => fs.writeSync(1, Buffer.from(inst.exports.memory.buffer, p, n));
const env = { w: out, x: (c) => { process.exit(c); } };
try {
  inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), { env });
  const args = ['harness'].concat(process.argv.slice(3));
  const b = Buffer.from(args.map((a) => a + '\0').join(''), 'latin1');
  Buffer.from(inst.exports.memory.buffer).set(b, inst.exports.argbuf());
  if (inst.exports._initialize) inst.exports._initialize(); else if (inst.exports.__wasm_call_ctors) inst.exports.__wasm_call_ctors();
  process.exitCode = inst.exports.run(args.length);
} catch (e) {
  if (e instanceof WebAssembly.RuntimeError) { fs.writeSync(1, 'VIOL wasm-trap ' + e.message + '\n'); process.exitCode = 1; } else { console.error(e); process.exitCode = 3; }
}
