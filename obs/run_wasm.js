// node run_wasm.js FILE.wasm DIR quick|thorough PF_ONLY(0|1) : the same as `obs run`
// node run_wasm.js FILE.wasm save DIR PF_ONLY                : the same as `obs save`
// node run_wasm.js FILE.wasm load BLOBS DIR PF_ONLY          : the same as `obs load`
// in eight worker processes (the last two arguments of a worker: --part I/N).
const fs = require('fs'), cp = require('child_process');
const argv = process.argv.slice(2);
const k = argv.indexOf('--part');
if (k < 0) {
  const N = 8, ps = [];
  for (let i = 0; i < N; i++)
    ps.push(new Promise(res => cp.spawn(process.execPath, [__filename, ...argv, '--part', `${i}/${N}`], {stdio: 'inherit'}).on('exit', c => res(c))));
  Promise.all(ps).then(cs => process.exit(cs.some(c => c !== 0) ? 1 : 0));
} else {
  const [part, parts] = argv[k + 1].split('/').map(Number);
  const mod = new WebAssembly.Module(fs.readFileSync(argv[0]));
  let inst = new WebAssembly.Instance(mod, {});
  const f64s = n => Buffer.from(inst.exports.memory.buffer, inst.exports.obs_ptr(), n * 8);
  // one case; a trap leaves a .panic file and a fresh instance
  const attempt = (stem, f) => {
    try {
      f();
    } catch (e) {
      fs.writeFileSync(`${stem}.panic`, String(e));
      inst = new WebAssembly.Instance(mod, {});
    }
  };
  const over = (n, f) => { for (let i = part; i < n; i += parts) f(n - 1 - i); };
  if (argv[1] === 'save') {
    const dir = argv[2];
    over(inst.exports.obs_wire_cases(+argv[3]), c => attempt(`${dir}/${c}`, () => {
      const len = inst.exports.obs_save(c);
      fs.writeFileSync(`${dir}/${c}.bin`, Buffer.from(inst.exports.memory.buffer, inst.exports.obs_bytes(), len));
    }));
  } else if (argv[1] === 'load') {
    const [blobs, dir] = [argv[2], argv[3]];
    over(inst.exports.obs_wire_cases(+argv[4]), c => {
      for (let b = 0; fs.existsSync(`${blobs}/${c}-${b}.bin`); b++)
        attempt(`${dir}/${c}-${b}`, () => {
          const data = fs.readFileSync(`${blobs}/${c}-${b}.bin`);
          const at = inst.exports.obs_room(data.length);
          Buffer.from(inst.exports.memory.buffer, at, data.length).set(data);
          const n = inst.exports.obs_load(c);
          fs.writeFileSync(`${dir}/${c}-${b}.f64`, f64s(n));
        });
    });
  } else {
    const [dir, tier, pfOnly] = [argv[1], argv[2], argv[3]];
    const th = tier === 'thorough' ? 1 : 0;
    over(pfOnly === '1' ? 66 : inst.exports.obs_cases(th), c => attempt(`${dir}/${c}`, () => {
      const n = inst.exports.obs_run(c, th);
      fs.writeFileSync(`${dir}/${c}.f64`, f64s(n));
    }));
  }
}
