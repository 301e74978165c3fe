// node run.js MODULE PROP THOROUGH SHARD NSHARDS SECONDS   (or: ... leaf SPACE INDEX): runs executions on a 32-bit machine
const fs = require('fs');
const [file, prop, tier, a, b, c] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(file));
const P = Number(prop.slice(1)), T = tier === 'thorough' ? 1 : 0;
let x;
function start() { x = new WebAssembly.Instance(mod, {}).exports; x.port_start(); }
function text() { return Buffer.from(x.memory.buffer, x.port_text() >>> 0, x.port_len() >>> 0).toString(); }
let buf = [], size = 0;
function put(s) { buf.push(s); size += s.length; if (size > 1 << 16) flush(); }
function flush() { fs.writeSync(1, buf.join('')); buf = []; size = 0; }
start();
x.port_list(P, T);
const spaces = text().trim().split('\n').map(l => l.split(' '));
function leaf(s, i) {
  put(`L ${spaces[s][0]} ${i}\n`);
  try {
    x.port_leaf(P, T, s, i);
    put(text() + '\n');
  } catch (e) {
    let m = '';
    try { m = text(); } catch (_) { }
    put(`X ${e.message}: ${m}`.replace(/\n/g, ' ') + '\n');
    start();
  }
}
function deal(g, n) { let d = 0; for (; g > 0; g = Math.floor(g / n)) d += g % n; return d % n; }
function main() {
  if (a === 'leaf') {
    leaf(spaces.findIndex(s => s[0] === b), Number(c));
  } else {
    const [shard, n, secs] = [a, b, c].map(Number), t0 = Date.now();
    let g = 0;
    for (let s = 0; s < spaces.length; s++) {
      if (spaces[s][1] !== 'wasm' || (process.env.VK_SPACE || spaces[s][0]) !== spaces[s][0]) continue;
      for (let i = 0; i < Number(spaces[s][2]); i++) {
        if (deal(g++, n) !== shard) continue;
        if (Date.now() - t0 > secs * 1000) { put('T\n'); flush(); return; }
        leaf(s, i);
      }
    }
  }
  put('E\n');
  flush();
}
main();
