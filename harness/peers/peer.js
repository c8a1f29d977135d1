// Serves the WebAssembly module over lines of JSON: peer.js DIRECTORY_OF_THE_MODULE
'use strict';
const fs = require('fs');
const v8 = require('v8');
const vm = require('vm');
v8.setFlagsFromString('--expose_gc');
const collect = vm.runInNewContext('gc');
// the linear memory of the module
let linear = null;
const Instance = WebAssembly.Instance;
WebAssembly.Instance = function (m, i) {
  const x = new Instance(m, i);
  linear = x.exports.memory;
  return x;
};
const module_ = require(process.argv[2] + '/cosmian_abe_gpsw.js');

function arg(v) {
  if (v === null) return undefined;
  if (typeof v === 'object') {
    if ('b' in v) return new Uint8Array(Buffer.from(v.b, 'hex'));
    if ('s' in v) {
      // a view in the middle of a larger buffer
      const b = Buffer.from(v.s, 'hex');
      const big = new Uint8Array(b.length + 23).fill(0xA5);
      big.set(b, 11);
      return big.subarray(11, 11 + b.length);
    }
    if ('n' in v) return Number(v.n);
    if ('u' in v) return null;
  }
  return v;
}

function ret(v) {
  if (v instanceof Uint8Array) return { b: Buffer.from(v).toString('hex') };
  if (typeof v === 'number') return { n: String(v) };
  return v === undefined ? null : v;
}

function memory() {
  collect();
  return [linear.buffer.byteLength, process.memoryUsage().arrayBuffers];
}

// makes the same calls again and again, and reads the memory between batches
function repeat(q) {
  const todo = q.repeat.map((c) => [c.f, c.a.map(arg)]);
  function batch(n) {
    for (let i = 0; i < n; i++) {
      for (const [f, a] of todo) {
        try {
          const r = module_[f](...a);
          if (f.includes('_create_')) module_[f.replace('_create_', '_destroy_')](r);
        } catch (e) {
          if (e instanceof WebAssembly.RuntimeError) throw e;
        }
      }
    }
  }
  batch(3);
  const rows = [memory()];
  for (let b = 0; b < q.batches; b++) {
    batch(q.n);
    rows.push(memory());
  }
  return { ok: rows.map((r) => r.map((v) => ({ n: String(v) }))) };
}

function serve(line) {
  const q = JSON.parse(line);
  if (q.repeat) {
    try {
      return JSON.stringify(repeat(q));
    } catch (e) {
      return JSON.stringify({ panic: e.name, m: String(e.message) });
    }
  }
  let r;
  const args = q.a.map(arg);
  const before = args.map((x) => (x instanceof Uint8Array ? Buffer.from(x).toString('hex') : null));
  try {
    r = { ok: ret(module_[q.f](...args)) };
  } catch (e) {
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) r = { panic: e.name, m: String(e.message) };
    else r = { err: e instanceof Error ? e.name : typeof e, m: String(e instanceof Error ? e.message : e) };
  }
  if (args.some((x, i) => before[i] !== null && Buffer.from(x).toString('hex') !== before[i])) {
    r = { panic: 'argument changed', m: q.f };
  }
  return JSON.stringify(r);
}

function put(s) {
  const b = Buffer.from(s + '\n');
  let p = 0;
  while (p < b.length) {
    try { p += fs.writeSync(1, b, p); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}

// the module prints nothing of its own on the output of the protocol
console.log = () => {};
put(JSON.stringify(Object.keys(module_).filter((n) => n.startsWith('webassembly_')).sort()));
let pending = '';
const chunk = Buffer.alloc(1 << 20);
const { StringDecoder } = require('string_decoder');
const dec = new StringDecoder('utf8');
for (;;) {
  let n;
  try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) {
    if (e.code === 'EAGAIN') continue;
    if (e.code === 'EOF') break;
    throw e;
  }
  if (n === 0) break;
  pending += dec.write(chunk.subarray(0, n));
  let i;
  while ((i = pending.indexOf('\n')) >= 0) {
    const line = pending.slice(0, i);
    pending = pending.slice(i + 1);
    put(serve(line));
  }
}
