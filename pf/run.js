// Answers questions on standard input from the crate compiled to WebAssembly.
const fs = require('fs'), readline = require('readline');
let m;
const load = () => new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), {}).exports;
m = load();
console.log('ready 32 false');
readline.createInterface({ input: process.stdin }).on('line', l => {
  const p = l.trim().split(/\s+/), n = i => Number(p[i]);
  let a;
  try {
    if (p[0] === 'd') a = BigInt.asUintN(64, m.pf_digest(n(1), n(2), n(3), n(4))).toString(16).padStart(16, '0');
    else {
      const len = m.pf_explain(n(1), n(2));
      a = Buffer.from(m.memory.buffer, m.pf_text(), len).toString();
    }
  } catch (e) {
    a = 'ended: ' + e;
    m = load();
  }
  console.log(a);
});
