#!/usr/bin/env python3
"""Writes ref/x_small.h: (scalar, point) pairs whose X25519 result is smaller than 38 or close to p,
where a field element has more than one 256-bit representation.  Deterministic."""
import random, os
p = 2**255 - 19; L = 2**252 + 27742317777372353535851937790883648493; LT = 2**253 - 55484635554744707071703875581767296995
A24 = 121665
def mul(k, u):
    x1, x2, z2, x3, z3, sw = u % p, 1, 0, u % p, 1, 0
    for t in reversed(range(256)):
        b = k >> t & 1
        if sw ^ b: x2, x3, z2, z3 = x3, x2, z3, z2
        sw = b; a = x2 + z2; b_ = x2 - z2; aa = a * a; bb = b_ * b_; e = aa - bb; da = (x3 - z3) * a; cb = (x3 + z3) * b_
        x3 = (da + cb)**2 % p; z3 = x1 * (da - cb)**2 % p; x2 = aa * bb % p; z2 = e * (aa + A24 * e) % p
    if sw: x2, z2 = x3, z3
    return x2 * pow(z2, p - 2, p) % p
def curve(u): return pow(u * u * u + 486662 * u * u + u, (p - 1) // 2, p) == 1
R = random.Random(20240607); out = []
us = [u for u in range(1, 38)] + [p - u for u in range(1, 38)]
for u in us:
    q = L if curve(u) else LT
    if mul(q + 1, u) != u or mul(4, u) == 0: continue          # outside the prime-order subgroup: never an output
    for _ in range(10):
        k = R.getrandbits(255) & ~7 | 1 << 254; k &= (1 << 255) - 1
        P = mul(pow(k % q, -1, q), u)
        assert mul(k, P) == u, (k, P, u, u-p)
        out.append((k, P, u))
h = lambda v: '{' + ','.join(str(b) for b in v.to_bytes(32, 'little')) + '}'
with open(os.path.join(os.path.dirname(__file__), '../ref/x_small.h'), 'w') as f:
    f.write('/* made by tools/mkxsmall.py */\nstatic const struct { unsigned char k[32], p[32], u[32]; } X_SMALL[] = {\n' + ''.join('{%s,%s,%s},\n' % (h(a), h(b), h(c)) for a, b, c in out) + '};\n')
print(len(out), sorted({u if u < 99 else u - p for _, _, u in out}))
