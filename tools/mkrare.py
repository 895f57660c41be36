#!/usr/bin/env python3
"""ref/rare_list.h from the output of tools/rare.c (stdin); at most CAP entries per wrong decision."""
import sys, collections
cap = int(sys.argv[1]) if len(sys.argv) > 1 else 8
n = collections.Counter(); sv = collections.OrderedDict(); ks = collections.OrderedDict()
for line in sorted(set(sys.stdin)):
    f = line.split()
    if f[0] == 'K':
        if n['K', f[2]] < cap: n['K', f[2]] += 1; ks.setdefault(int(f[1]), []).append(f[2])
    elif n[f[0], f[3]] < cap:
        n[f[0], f[3]] += 1; sv.setdefault((int(f[1]), int(f[2])), []).append(f[0] + f[3])
out = ['/* generated by tools/mkrare.py from a search with tools/rare.c: inputs on which a wrong version of one',
       ' * decision of Dilithium (S signing, V verification, K key generation; numbers as in ref_dilithium.c) shows */',
       'typedef struct { uint16_t key; uint32_t ctr; const char *why; } rare_entry;', 'static const rare_entry rare_list[] = {']
out += ['  {%d, %d, "%s"},' % (k, c, ' '.join(w)) for (k, c), w in sorted(sv.items())] + ['};', 'static const struct { uint32_t ctr; const char *why; } rare_keys[] = {']
out += ['  {%d, "%s"},' % (c, ' '.join('K' + x for x in w)) for c, w in sorted(ks.items())] + ['};']
open('ref/rare_list.h', 'w').write('\n'.join(out) + '\n')
print(len(sv), 'signing inputs', len(ks), 'key seeds', dict(n))
