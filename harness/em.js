// Runs the JavaScript that randombytes.c embeds for browsers and Node.js, against stand-ins for the platform.
// stdin:  one line per call: mode seed n hex(code)      stdout: T <thrown> | R <ret>, then E <hex of bytes handed out>, H <hex of the heap around the buffer>, M <calls of Math.random>
'use strict';
const nodeCrypto = require('crypto'), rl = require('readline').createInterface({ input: process.stdin, terminal: false });
const BASE = 4096, PAD = 64, realRandom = Math.random;
rl.on('line', (line) => {
  const [mode, seed, ns, codeHex] = line.split(' '); const n = Number(ns); const body = Buffer.from(codeHex, 'hex').toString('utf8');
  const HEAPU8 = new Uint8Array(BASE + n + 4096); HEAPU8.fill(0xa5);
  let served = [], ctr = 0, weak = 0, calls = 0; const m = mode.split('+');
  const has = (x) => m.includes(x);
  const gen = (len) => { // deterministic, never constant stream
    const parts = []; let left = len; while (left > 0) { const b = nodeCrypto.createHash('sha512').update(seed + ':' + ctr++).digest(); parts.push(left >= 64 ? b : b.subarray(0, left)); left -= 64; }
    return Buffer.concat(parts, len);
  };
  const fill = (a) => { if (!ArrayBuffer.isView(a) || a instanceof Float32Array || a instanceof Float64Array || a instanceof DataView) { const e = new Error('TypeMismatchError'); e.name = 'TypeMismatchError'; throw e; }
    calls++; if (a.byteLength > 65536) { const e = new Error('QuotaExceededError'); e.name = 'QuotaExceededError'; throw e; }
    if (has('gvthrow') || (has('gvlate') && calls > 1)) throw new Error('source unavailable');
    const b = gen(a.byteLength); new Uint8Array(a.buffer, a.byteOffset, a.byteLength).set(b); served.push(b); return a; };
  const webc = { getRandomValues: fill };
  const cryptoMod = { randomBytes: (k) => { calls++; if (has('rbthrow')) throw new Error('source unavailable'); if (!Number.isInteger(k) || k < 0) throw new RangeError('bad size'); const b = gen(k); served.push(b); return Buffer.from(b); },
    randomFillSync: (a, o = 0, s) => { if (has('rbthrow')) throw new Error('source unavailable'); const v = new Uint8Array(a.buffer || a, a.byteOffset || 0, a.byteLength); const k = s === undefined ? v.length - o : s; const b = gen(k); v.set(b, o); served.push(b); return a; },
    webcrypto: webc, getRandomValues: fill };
  const window_ = has('browser') ? (has('nocrypto') ? {} : has('nogv') ? { crypto: {} } : { crypto: webc }) : undefined;
  if (window_) window_.window = window_;
  const req = (has('node') && !has('norequire')) ? (name) => { if (name === 'crypto' || name === 'node:crypto') return cryptoMod; throw new Error("Cannot find module '" + name + "'"); } : has('noreqfn') ? undefined : () => { throw new Error("Cannot find module"); };
  const glob = { window: window_, crypto: window_ ? window_.crypto : has('node') && !has('norequire') ? webc : undefined, Math };
  Math.random = () => { weak++; return realRandom(); };
  const writeArrayToMemory = (arr, p) => { HEAPU8.set(arr, p); };
  let out;
  try {
    const f = new Function('$0', '$1', 'window', 'self', 'globalThis', 'crypto', 'require', 'writeArrayToMemory', 'HEAPU8', 'HEAP8', 'Module', 'process', body);
    const r = f(BASE, n, window_, window_, glob, glob.crypto, req, writeArrayToMemory, HEAPU8, new Int8Array(HEAPU8.buffer), { HEAPU8 }, has('node') ? process : undefined);
    out = 'R ' + ((r === undefined ? 0 : Number(r)) | 0);
  } catch (e) { out = 'T ' + String(e && e.name) + ':' + String(e && e.message).replace(/\s+/g, '_'); }
  Math.random = realRandom;
  let touched = 0; for (let i = 0; i < BASE; i++) if (HEAPU8[i] !== 0xa5) touched++; for (let i = BASE + n; i < HEAPU8.length; i++) if (HEAPU8[i] !== 0xa5) touched++;
  process.stdout.write(out + '\nE ' + Buffer.concat(served).toString('hex') + '\nH ' + Buffer.from(HEAPU8.subarray(BASE, BASE + n)).toString('hex') + '\nM ' + weak + ' ' + touched + '\n');
});
