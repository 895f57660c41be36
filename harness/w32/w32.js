// Runs calls of the wasm32 build of the library.  argv[2]: module.
// stdin, one line per call:  fn entropyHex failFrom mallocFail offset arg...      arg: i:<hex> o:<hex> z:<u32> l:<u64> n: h:<length of a zero-filled buffer beyond the arena>
// stdout, one line per call: <R ret | T fault | X> ; out hex ... ; canaries inputs live draws stack freeNonzero low
'use strict';
const fs = require('fs'), rl = require('readline').createInterface({ input: process.stdin, terminal: false });
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2])); let I, E, arena, ent, pos, draws, failFrom, faultText; const ASZ = 1 << 20, CAN = 64, STACK = 1 << 20;
const cstr = (p) => { const h = new Uint8Array(E.memory.buffer); let q = p; while (h[q]) q++; return Buffer.from(h.subarray(p, q)).toString('utf8'); };
const cache = new Map();
function em_asm(code, n, args) {
  const t = cstr(code); if (!cache.has(t)) cache.set(t, new Function('require', 'writeArrayToMemory', 'HEAPU8', '$0', '$1', '$2', '$3', t));
  const a = Array.from(new Float64Array(E.memory.buffer.slice(args, args + 8 * n))); const H = new Uint8Array(E.memory.buffer);
  return cache.get(t)((m) => ({ randomBytes: (k) => { draws++; if (failFrom && draws >= failFrom) throw new Error('entropy'); if (pos + k > ent.length) throw new Error('stream exhausted'); const r = ent.subarray(pos, pos + k); pos += k; return r; } }), (arr, p) => { H.set(arr, p); }, H, ...a) | 0;
}
function fresh() { I = new WebAssembly.Instance(mod, { env: { em_asm, fault: (w, t, v) => { faultText = `${cstr(w)}: ${cstr(t)} (${v})`; throw new Error(faultText); } } }); E = I.exports; arena = E.malloc(ASZ); if (!arena) process.exit(9); }
const geti = (name) => new DataView(E.memory.buffer).getInt32(E[name].value, true), seti = (name, v) => new DataView(E.memory.buffer).setInt32(E[name].value, v, true);
fresh();
let q = []; 
rl.on('line', (line) => {
  const f = line.split(' '); const fn = E[f[0]]; if (!fn) { process.stdout.write('X;;\n'); return; }
  ent = Buffer.from(f[1], 'hex'); pos = 0; draws = 0; failFrom = Number(f[2]); const off = Number(f[4]); let H = new Uint8Array(E.memory.buffer); const args = [], bufs = []; let huge = 0; let at = arena; H.fill(0xA7, arena, arena + ASZ);
  for (const a of f.slice(5)) {
    if (a[0] === 'z') args.push(Number(a.slice(2)) | 0); else if (a[0] === 'l') args.push(BigInt.asIntN(64, BigInt(a.slice(2)))); else if (a[0] === 'n') args.push(0);
    else if (a[0] === 'h') { const n = Number(a.slice(2)); const base = E.memory.buffer.byteLength; E.memory.grow(Math.ceil(n / 65536) + 1); H = new Uint8Array(E.memory.buffer); args.push(base); huge = base; }
    else { const b = Buffer.from(a.slice(2), 'hex'); at = ((at + CAN + 15) & ~15) + (b.length === 8 || b.length === 4 ? 0 : off); if (at + b.length + CAN > arena + ASZ) { process.stdout.write('X;;\n'); return; } H.set(b, at); bufs.push({ k: a[0], at, n: b.length, was: b }); args.push(at); at += b.length; }
  }
  const sp = STACK; new Uint32Array(E.memory.buffer, 1024, (sp - 1024) >> 2).fill(0x5A5A5A5A); const low = H.slice(0, 1024);
  seti('w_live', 0); seti('w_mallocs', 0); seti('w_fail_at', Number(f[3])); seti('w_free_nonzero', -1); seti('w_on', 1); let head; faultText = null;
  try { const r = fn(...args); head = 'R ' + (r === undefined ? 0 : String(r)); } catch (e) { head = 'T ' + (faultText || String(e.message)).replace(/[;\n]/g, ','); }
  seti('w_on', 0); H = new Uint8Array(E.memory.buffer); let bad = 0, inch = 0, lowt = 0; let prev = arena; const outs = [];
  for (const b of bufs) { for (let i = prev; i < b.at; i++) if (H[i] !== 0xA7) bad++; prev = b.at + b.n; if (b.k === 'o') outs.push(Buffer.from(H.subarray(b.at, b.at + b.n)).toString('hex')); else if (Buffer.compare(b.was, H.subarray(b.at, b.at + b.n))) inch++; }
  for (let i = prev; i < arena + ASZ; i++) if (H[i] !== 0xA7) bad++; for (let i = 0; i < 1024; i++) if (H[i] !== low[i]) lowt++;
  const S = new Uint32Array(E.memory.buffer, 1024, (sp - 1024) >> 2); let s = 0; while (s < S.length && S[s] === 0x5A5A5A5A) s++; const live = geti('w_live'), nz = geti('w_free_nonzero');
  const ml = geti('w_mallocs'); process.stdout.write(`${head};${outs.join(' ')};${bad} ${inch} ${live} ${draws} ${sp - 1024 - 4 * s} ${nz} ${lowt} ${ml}\n`);
  if (head[0] === 'T' || huge) fresh();
});
