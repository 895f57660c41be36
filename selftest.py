"""Tests the reference model in ref/ against hashlib and the openssl tool (setup_cmd)."""
import ctypes, hashlib, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))


def main(build_only=False):
    tmp = tempfile.mkdtemp(prefix='vp-selftest-')
    try:
        return run(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(tmp):
    so = f'{tmp}/ref.so'
    import glob
    r = subprocess.run(['clang', '-O2', '-fPIC', '-shared', '-std=gnu11', '-w', f'-I{V}/ref', '-o', so] + sorted(glob.glob(f'{V}/ref/*.c')), capture_output=True, text=True)
    if r.returncode:
        print(r.stderr); return 2
    L = ctypes.CDLL(so)
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    sz = ctypes.c_size_t
    n = 0

    def call(f, outlen, *a):
        o = ctypes.create_string_buffer(outlen or 1)
        f(o, *a)
        return o.raw[:outlen]
    for i in range(700):
        m = rnd.randbytes(i if i < 400 else rnd.randrange(0, 3000))
        k = rnd.randrange(1, 600)
        assert call(L.ref_shake128, k, sz(k), m, sz(len(m))) == hashlib.shake_128(m).digest(k)
        assert call(L.ref_shake256, k, sz(k), m, sz(len(m))) == hashlib.shake_256(m).digest(k)
        for b in (256, 384, 512):
            assert call(L.ref_sha3, b // 8, ctypes.c_uint(b), m, sz(len(m))) == hashlib.new(f'sha3_{b}', m).digest()
        assert call(L.ref_sha512, 64, m, sz(len(m))) == hashlib.sha512(m).digest()
        n += 6
    if shutil.which('openssl'):
        for i in range(20):
            seed, m = rnd.randbytes(32), rnd.randbytes(rnd.randrange(0, 200))
            pk = ctypes.create_string_buffer(32); sk = ctypes.create_string_buffer(64); sig = ctypes.create_string_buffer(64)
            L.ref_ed_keypair(pk, sk, seed); L.ref_ed_sign(sig, m, sz(len(m)), sk.raw)
            open(f'{tmp}/k.der', 'wb').write(bytes.fromhex('302e020100300506032b657004220420') + seed)
            open(f'{tmp}/m', 'wb').write(m)
            r = subprocess.run(['openssl', 'pkeyutl', '-sign', '-rawin', '-inkey', f'{tmp}/k.der', '-keyform', 'DER', '-in', f'{tmp}/m'], capture_output=True)
            if r.returncode == 0 and m:
                assert r.stdout == sig.raw, 'ed25519'
                n += 1
            a, b = rnd.randbytes(32), rnd.randbytes(32)
            base = bytes([9]) + bytes(31)
            pub = call(L.ref_x25519, 32, b, base)
            open(f'{tmp}/a.der', 'wb').write(bytes.fromhex('302e020100300506032b656e04220420') + a)
            open(f'{tmp}/b.der', 'wb').write(bytes.fromhex('302a300506032b656e032100') + pub)
            r = subprocess.run(['openssl', 'pkeyutl', '-derive', '-inkey', f'{tmp}/a.der', '-keyform', 'DER', '-peerkey', f'{tmp}/b.der', '-peerform', 'DER'], capture_output=True)
            if r.returncode == 0:
                assert r.stdout == call(L.ref_x25519, 32, a, pub), 'x25519'
                n += 1
    # NaCl's published box example (Bernstein, Lange, Schwabe)
    h = bytes.fromhex
    fk = h('1b27556473e985d462cd51197a9a46c76009549eac6474f206c4ee0844f68389')
    nn = h('69696ee955b62b73cd62bda875fc73d68219e0036b7a0b37')
    msg = h('be075fc53c81f2d5cf141316ebeb0c7b5228c52a4c62cbd44b66849b64244ffce5ecbaaf33bd751a1ac728d45e6c61296cdc3c01233561f41db66cce314adb310e3be8250c46f06dceea3a7fa1348057e2f6556ad6b1318a024a838f21af1fde048977eb48f59ffd4924ca1c60902e52f0a089bc76897040e082f937763848645e0705')
    want = h('f3ffc7703f9400e52a7dfb4b3d3305d98e993b9f48681273c29650ba32fc76ce48332ea7164d96a4476fb8c531a1186ac0dfc17c98dce87b4da7f011ec48c97271d2c20f9b928fe2270d6fb863d51738b48eeee314a7cc8ab932164548e526ae90224368517acfeabd6bb3732bc0e9da99832b61ca01b6de56244a9e88d5f9b37973f622a43d14a6599b1f654cb45a74e355a5')
    st = call(L.ref_xsalsa20_stream, 32, sz(32), nn, fk)
    assert st.hex() == 'eea6a7251c1e72916d11c2cb214d3c252539121d8e234e652d651fa4c8cff880', 'xsalsa20'
    m = b'Cryptographic Forum Research Group'
    assert call(L.ref_poly1305, 16, m, sz(len(m)), h('85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b')).hex() == 'a8061dc1305136c6c22b8baf0c0127a9', 'poly1305'
    c = call(L.ref_secretbox, 32 + len(msg), bytes(32) + msg, sz(32 + len(msg)), nn, fk)
    assert c[16:] == want, 'secretbox'
    # Poly1305 against big integers
    for i in range(300):
        m = bytes(rnd.choice((0, 255, rnd.randrange(256))) for _ in range(rnd.randrange(0, 130)))
        k = rnd.randbytes(32) if i % 3 else bytes(rnd.choice((0, 255)) for _ in range(32))
        r = int.from_bytes(k[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
        a = 0
        for j in range(0, len(m), 16):
            a = (a + int.from_bytes(m[j:j + 16] + b'\1', 'little')) * r % (2**130 - 5)
        assert call(L.ref_poly1305, 16, m, sz(len(m)), k) == ((a + int.from_bytes(k[16:], 'little')) % 2**128).to_bytes(16, 'little'), 'poly1305'
        n += 1
    print(f'OK selftest: {n + 1} comparisons of the reference model with hashlib/OpenSSL/NaCl vectors')
    return 0


if __name__ == '__main__':
    sys.exit(main())
