// node wasmrun.js MODULE SCRIPT OUT: runs the behaviours of a script in the wasm build of the driver.
// node wasmrun.js MODULE explore "PROFILE TYPES SEED N": random behaviours, compared inside the module.
const fs = require('fs');
const [, , mod, script, out] = process.argv;
const module_ = new WebAssembly.Module(fs.readFileSync(mod));
const exploring = script === 'explore';
const text = exploring ? Buffer.from(out) : fs.readFileSync(script);
let inst;
function load() {
  inst = new WebAssembly.Instance(module_, {}).exports;
  const p = inst.hw_input(text.length) >>> 0;
  new Uint8Array(inst.memory.buffer, p, text.length).set(text);
  return exploring ? 0 : inst.hw_load();
}
const read = () => Buffer.from(new Uint8Array(inst.memory.buffer, inst.hw_out() >>> 0, inst.hw_outlen() >>> 0)).toString();
const n = load();
if (exploring) {
  inst.hw_explore();
  process.stdout.write(read());
  process.exit(0);
}
const res = [];
for (let i = 0; i < n; i++) {
  try {
    inst.hw_run(i);
    res.push(read());
  } catch (e) {
    // unreachable (a panic) or an out-of-bounds access
    let got = '';
    try { got = read(); } catch (_) { }
    const kind = e instanceof WebAssembly.RuntimeError && /unreachable/.test(e.message) ? '!' : 'X';
    res.push(got.replace(/ $/, '') + ' ' + kind);
    load();
  }
}
fs.writeFileSync(out, res.join('\n') + '\nEND\n');
