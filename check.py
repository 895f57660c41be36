#!/usr/bin/env python3
"""check.py PROP            run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py PROP --replay F re-run the case recorded in a replay file
   check.py --selftest      test the reference model against OpenSSL/hashlib vectors
Everything is rebuilt from /repo's working tree in a scratch directory."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = os.environ.get('VERIF_SEED', '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = max(1, min(16, len(os.sched_getaffinity(0))))
WALL = 14400 if THOROUGH else 820        # a process is given up after this (incomplete, not a violation)
STALL = 300                              # no new case for so long while idle: a deadlock (endless loops are caught by the CPU watchdog in the process)

from checks import CHECKS  # noqa: E402


class HarnessError(Exception):
    pass


def repo_sources():
    txt = open(f'{REPO}/CMakeLists.txt').read()
    m = re.search(r'set\s*\(\s*SOURCE_FILES\b([^)]*)\)', txt)
    out = []
    if m:
        out = [t for t in re.findall(r'[^\s"]+', m.group(1)) if t.endswith('.c')]
        out = [t for t in out if os.path.exists(f'{REPO}/{t}')]
    if len(out) < 10:
        out = []
        for d in ('dilithium2', 'sphincs', 'common', 'tweetnacl', 'hybrid-dilithium-sphincs'):
            out += sorted(os.path.relpath(f, REPO) for f in glob.glob(f'{REPO}/{d}/*.c'))
        out.append('random/randombytes.c')
        out = [f for f in out if 'test' not in os.path.basename(f)]
    return list(dict.fromkeys(out))


SAN_A = '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer'
# variant -> compiler, library flags, harness flags, link flags, ref flags
VARIANTS = {
    # the project's release configuration
    'plain': dict(cc='gcc', lib='-O3 -DNDEBUG -std=gnu11 -fPIC -fstack-protector-all', har='-O2', ld=''),
    'asan': dict(cc='clang', lib=f'-O1 -g -std=gnu11 {SAN_A}', har=f'-O1 -g {SAN_A}', ld=SAN_A, ref='-O2'),
    'asan-gcc': dict(cc='gcc', lib=f'-O2 -g -std=gnu11 {SAN_A}', har=f'-O1 -g {SAN_A}', ld=SAN_A, ref='-O2'),
    'msan': dict(cc='clang', lib='-O1 -g -std=gnu11 -fsanitize=memory -fno-sanitize-memory-param-retval -fsanitize-memory-track-origins=1 -fno-omit-frame-pointer',
                 har="-O1 -g -fsanitize=memory -fno-sanitize-memory-param-retval", ld='-fsanitize=memory -g', ref="-O2 -fsanitize=memory -fno-sanitize-memory-param-retval"),
    'ubsan': dict(cc='gcc', lib='-O2 -std=gnu11 -fsanitize=undefined -fno-sanitize-recover=all', har='-O2', ld='-fsanitize=undefined'),
    'tsan': dict(cc='clang', lib='-O1 -g -std=gnu11 -fsanitize=thread', har='-O1 -g -fsanitize=thread', ld='-fsanitize=thread', ref='-O2'),
    'vg-gcc': dict(cc='gcc', lib='-O3 -DNDEBUG -g -std=gnu11 -fPIC -fstack-protector-all', har='-O1 -g -DH_VG', ld=''),
    'vg-clang': dict(cc='clang', lib='-O2 -DNDEBUG -g -std=gnu11', har='-O1 -g -DH_VG', ld=''),
    'vg-gcc-Os': dict(cc='gcc', lib='-Os -g -std=gnu11', har='-O1 -g -DH_VG', ld=''),
}
VARIANTS['vg-gcc-O2'] = dict(VARIANTS['vg-gcc-Os'], lib='-O2 -g -std=gnu11')
VARIANTS['vg-gcc-O0'] = dict(VARIANTS['vg-gcc-Os'], lib='-O0 -g -std=gnu11')
VARIANTS['vg-clang-O0'] = dict(VARIANTS['vg-clang'], lib='-O0 -g -std=gnu11')
VARIANTS['vg-clang-Os'] = dict(VARIANTS['vg-clang'], lib='-Os -g -std=gnu11')
for _cc in ('gcc', 'clang'):
    for _o in ('-O0', '-O1', '-O2', '-O3', '-Os'):
        VARIANTS[f'{_cc}{_o}'] = dict(cc=_cc, lib=f'{_o} -std=gnu11', har='-O2', ld='')
VARIANTS['gcc-O3-native'] = dict(cc='gcc', lib='-O3 -march=native -funroll-loops -std=gnu11', har='-O2', ld='')
VARIANTS['gcc-uchar'] = dict(cc='gcc', lib='-O2 -funsigned-char -std=gnu11', har='-O2', ld='')
# other randombytes back ends (the header shims make the source believe in an older libc / kernel headers)
for _b, _fl in (('syscall', '-DH_OLD_GLIBC'), ('urandom', '-DH_OLD_GLIBC -DH_NO_SYS_GETRANDOM')):
    VARIANTS[_b] = dict(cc='gcc', lib='-O2 -std=gnu11 -U_FORTIFY_SOURCE', har=f'-O2 -DH_BACKEND_{_b}', ld='', shim=_fl)
VARIANTS['urandom-asan'] = dict(cc='clang', lib=f'-O1 -g -std=gnu11 {SAN_A}', har=f'-O1 -g {SAN_A} -DH_BACKEND_urandom', ld=SAN_A, ref='-O2', shim='-DH_OLD_GLIBC -DH_NO_SYS_GETRANDOM')

# the WebAssembly wrapper file, compiled natively against a stand-in header
for _w, _b in (('wasm', 'plain'), ('wasm-clang', 'clang-O2'), ('wasm-Os', 'clang-Os'), ('wasm-O0', 'gcc-O0'), ('wasm-asan', 'asan')):
    VARIANTS[_w] = dict(VARIANTS[_b], wasm=True)

# randombytes.c as other platforms compile it, against stand-ins for their system calls (d_plat.c)
_NOLINUX = '-U__linux__ -U__linux -Ulinux -U__gnu_linux__'
for _b in ('plain', 'asan'):
    _sfx = '' if _b == 'plain' else '-' + _b
    for _p, _fl, _h, _l in (('win', f'{_NOLINUX} -U__unix__ -U__unix -Uunix -D_WIN32 -D__declspec(x)= -I{V}/harness/stub/win', '-DH_PLAT_win', ''),
                            ('bsd', f'{_NOLINUX} -DBSD=199506', '-DH_PLAT_arc4 -DH_PLAT_NAME="bsd"', ' -Wl,--wrap=arc4random_buf,--wrap=arc4random'),
                            ('wasi', f'{_NOLINUX} -U__unix__ -U__unix -Uunix -D__wasi__', '-DH_PLAT_arc4 -DH_PLAT_NAME="wasi"', ' -Wl,--wrap=arc4random_buf,--wrap=arc4random'),
                            ('em', f'-D__EMSCRIPTEN__ -I{V}/harness/stub', '-DH_PLAT_em', '')):
        VARIANTS[f'plat-{_p}{_sfx}'] = dict(VARIANTS[_b], plat=_fl, har=f'{VARIANTS[_b]["har"]} {_h}', ld=VARIANTS[_b]['ld'] + _l, optional=True)

# the library as wasm32, executed in node next to the native build (d_w32.c)
for _w, _fl in (('w32-O2', '-O2'), ('w32-O0', '-O0'), ('w32-Os', '-Os -DNDEBUG'), ('w32-ubsan', '-O1 -fsanitize=undefined,bounds,shift -fsanitize-trap=all')):
    VARIANTS[_w] = dict(VARIANTS['plain'], wasm=True, w32=_fl, optional=True)

# comparison tracing for the steered runs: only the library is instrumented
_CMP = '-O1 -g -std=gnu11 -fsanitize-coverage=trace-pc-guard,trace-cmp'
VARIANTS['cmp'] = dict(cc='clang', lib=_CMP, har='-O2', ld='-Wl,--wrap=memcmp,--wrap=bcmp')
VARIANTS['cmp-wasm'] = dict(VARIANTS['cmp'], har='-O2 -DST_WASM', wasm=True)
VARIANTS['cmp-asan'] = dict(cc='clang', lib=f'{_CMP} -fsanitize=address', har='-O2 -g', ld='-fsanitize=address -Wl,--wrap=memcmp,--wrap=bcmp', ref='-O2')

# secret-taint builds whose cross-file calls are interposed where the algorithms give something away by design (d_ct2.c)
_DECL = ','.join(f'--wrap=PQCLEAN_DILITHIUM2_CLEAN_{f}' for f in ('poly_challenge', 'polyvecl_chknorm', 'polyveck_chknorm', 'poly_chknorm', 'polyveck_make_hint', 'poly_make_hint', 'polyvec_matrix_expand', 'poly_uniform_eta')) \
    + ''.join(f',--wrap=PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_{f}' for f in ('gen_message_random', 'merkle_sign'))
for _v in ('gcc', 'clang', 'gcc-Os', 'gcc-O2', 'clang-Os', 'gcc-O0', 'clang-O0'):
    VARIANTS[f'ct-{_v}'] = dict(VARIANTS[f'vg-{_v}'], ld=f'-Wl,{_DECL}')

WRAPS = ','.join(f'--wrap={f}' for f in ('malloc', 'calloc', 'realloc', 'free'))
IOWRAPS = ','.join(f'--wrap={f}' for f in ('syscall', 'open', 'open64', 'read', 'close', 'poll', 'ioctl', 'fopen', 'fopen64', 'fclose', 'fscanf', '__isoc99_fscanf', '__isoc23_fscanf', 'rewind'))


STRUCTURAL = {'allocations_seen', 'allocation_faults', 'io_fault_points', 'steered_executions', 'failing_open_codes'}


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors='replace', **kw)


def build(tmp, variant, files, drivers, pool, opt_wrap=True):
    """compile library + harness + ref for a variant; returns executable path"""
    v = VARIANTS[variant]
    d = f'{tmp}/{variant}'
    os.makedirs(d, exist_ok=True)
    inc = f'-I{V}/harness -I{V}/ref -I{REPO}'
    wrap = opt_wrap and variant not in ('tsan',)
    table = f'{d}/table.c'
    with open(table, 'w') as f:
        for n in drivers:
            f.write(f'extern void drv_{n}(void);\n')
        f.write('typedef struct { const char *name; void (*fn)(void); } h_driver;\nconst h_driver h_drivers[] = {\n')
        for n in drivers:
            f.write(f' {{"{n}", drv_{n}}},\n')
        f.write(' {0, 0}};\n')
    jobs = []
    for s in repo_sources():
        extra = ''
        if v.get('shim') and s.endswith('random/randombytes.c'):
            extra = f'-include {V}/harness/shim/pre.h {v["shim"]}'
        if v.get('plat') and s.endswith('random/randombytes.c'):
            extra = v['plat']
        jobs.append((f'{v["cc"]} {v["lib"]} {extra} -w -I{REPO} -c {REPO}/{s} -o {d}/lib_{s.replace("/", "_")}.o', 'repo'))
    if v.get('wasm'):
        for s in sorted(glob.glob(f'{REPO}/wasm/*.c')):
            jobs.append((f'{v["cc"]} {v["lib"]} -w -I{V}/harness/stub -I{REPO} -c {s} -o {d}/lib_wasm_{os.path.basename(s)}.o', 'repo'))
    if v.get('w32'):
        rd = sh(['clang', '-print-resource-dir']).stdout.strip()
        wc = f'clang --target=wasm32 {v["w32"]} -std=gnu11 -w -nostdinc -isystem {rd}/include -isystem {V}/harness/w32/inc'
        os.makedirs(f'{d}/w32', exist_ok=True)
        for s in repo_sources() + [f'wasm/{os.path.basename(x)}' for x in sorted(glob.glob(f'{REPO}/wasm/*.c'))]:
            jobs.append((f'{wc} -D__EMSCRIPTEN__ -I{REPO} -c {REPO}/{s} -o {d}/w32/{s.replace("/", "_")}.o', 'repo'))
        jobs.append((f'{wc.replace(v["w32"], "-O2")} -fno-builtin -c {V}/harness/w32/w32.c -o {d}/w32/w32.o', 'harness'))
        jobs.append((f'{wc.replace(v["w32"], "-O1")} -I{REPO} -c {V}/harness/w32/glue.c -o {d}/w32/glue.o', 'harness'))
    hw = '-DH_WRAP' if wrap else ''
    for s in ['h.c'] + (['h_io.c'] if v.get('shim') else []) + list(files):
        jobs.append((f'{v["cc"]} {v["har"]} {hw} -std=gnu11 -w {inc} -c {V}/harness/{s} -o {d}/har_{s}.o', 'harness'))
    jobs.append((f'{v["cc"]} {v["har"]} -c {table} -o {d}/har_table.o', 'harness'))
    for s in sorted(glob.glob(f'{V}/ref/*.c')):
        jobs.append((f'clang {v.get("ref", "-O2")} -fPIC -std=gnu11 -w {inc} -c {s} -o {d}/ref_{os.path.basename(s)}.o', 'harness'))

    def comp(j):
        r = sh(j[0].split())
        return (j, r)
    for j, r in pool.map(comp, jobs):
        if r.returncode:
            raise HarnessError(f'compile failed ({j[1]}): {j[0]}\n{r.stderr[-3000:]}')
    if v.get('w32'):
        r = sh(f'wasm-ld --no-entry --export-all --stack-first -z stack-size=1048576 {" ".join(sorted(glob.glob(f"{d}/w32/*.o")))} -o {d}/lib.wasm'.split())
        if r.returncode:
            raise HarnessError(f'link failed: {variant}\n{r.stderr[-3000:]}')
    objs = ' '.join(sorted(glob.glob(f'{d}/*.o')))
    ld = v['ld'] + (f' -Wl,{WRAPS}' if wrap else '') + (f' -Wl,{IOWRAPS}' if v.get('shim') else '')
    r = sh(f'{v["cc"]} {objs} -o {d}/drv {ld} -lpthread -lm'.split())
    if r.returncode:
        raise HarnessError(f'link failed: {variant}\n{r.stderr[-3000:]}')
    for o in glob.glob(f'{d}/*.o'):
        os.unlink(o)
    return f'{d}/drv'


ENV = dict(
    ASAN_OPTIONS='abort_on_error=0:exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1',
    UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', MSAN_OPTIONS='exitcode=66', TSAN_OPTIONS='halt_on_error=0:exitcode=66:history_size=4')


def cpu_of(pid):
    try:
        f = open(f'/proc/{pid}/stat').read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


class Job:
    def __init__(self, prop, run, shard, n, exe, tmp):
        self.prop, self.run, self.shard, self.n, self.exe, self.tmp = prop, run, shard, n, exe, tmp

    def cmd(self, extra=()):
        c = [self.exe, self.run['driver'], '--shard', f'{self.shard}/{self.n}', '--state', self.state] + list(extra or (['--case', self.run['case']] if self.run.get('case') else []))
        if self.run.get('valgrind'):
            c = ['valgrind', '-q', '--error-exitcode=65', '--num-callers=20', '--error-limit=no'] + self.run['valgrind'].split() + c
        return c

    def go(self, extra=()):
        self.state = f'{self.tmp}/state.{os.getpid()}.{id(self)}'
        env = dict(os.environ, **ENV)
        env.update(VERIF_SEED=SEED, VERIF_TIER=TIER, H_SCALE=str(self.run.get('scale', 1)), H_FIXED_SIGS=f'{V}/ref/fullsigs.bin', H_EMJS=f'{V}/harness/em.js', H_W32JS=f'{V}/harness/w32/w32.js', H_WASM=f'{os.path.dirname(self.exe)}/lib.wasm', H_VARIANT=self.run['variant'])
        if self.run.get('valgrind'):
            env['H_WD'] = '0'
        env.update(self.run.get('env', {}))
        self.wall = self.hang = False
        so, se = open(f'{self.state}.out', 'w+b'), open(f'{self.state}.err', 'w+b')
        p = subprocess.Popen(self.cmd(extra), stdout=so, stderr=se, env=env, cwd=self.tmp, start_new_session=True)
        t0 = since = time.time(); last, cpu0 = None, 0.0
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - t0 < 2 else 1); break
            except subprocess.TimeoutExpired:
                pass
            now = time.time(); c = self.case()
            if c != last:
                last, since, cpu0 = c, now, cpu_of(p.pid)
            elif now - since > STALL:
                used = cpu_of(p.pid) - cpu0
                self.hang = used < 2 or bool(self.run.get('valgrind')) and used > 0.8 * (now - since)
                if not self.hang:
                    since, cpu0 = now, cpu_of(p.pid)
            if self.hang or now - t0 > WALL:
                self.wall = True
                os.killpg(p.pid, signal.SIGKILL); p.wait(); break
        so.seek(0); se.seek(0)
        self.out = so.read(64 << 20).decode('utf8', 'replace'); self.err = se.read(4 << 20).decode('utf8', 'replace')
        so.close(); se.close()
        self.rc = p.returncode
        return self

    def case(self):
        try:
            return open(self.state, 'rb').read(128).split(b'\0')[0].decode()
        except OSError:
            return '?'


def san_key(err, rc):
    m = re.search(r'SUMMARY: (\w+): ([\w\-]+)(?: \([^)]*\))?(?: \S*?([\w\-.]+\.c):\d+(?::\d+)?)?(?: in (\w+))?', err)
    m2 = re.search(r'([\w\-.]+\.[ch]):\d+(?::\d+)?: runtime error: (.{0,80})', err)
    if m2:
        return f'ubsan:{m2.group(1)}:{re.sub(r"[0-9-]+", "N", m2.group(2))}'.replace(' ', '_')
    if m:
        return f'{m.group(1)}:{m.group(2)}:{m.group(4) or m.group(3) or "?"}'
    if rc is not None and rc < 0:
        return f'crash:signal{-rc}'
    return f'crash:exit{rc}'


def known_findings():
    out = []
    for l in open(f'{V}/known_findings.txt'):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
        if m:
            out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    prop = sys.argv[1]
    if prop == '--selftest':
        import selftest
        return selftest.main(build_only=False)
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replay = json.load(open(sys.argv[3]))
    t0 = time.time()
    ck = CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix=f'vp-{prop}-')
    try:
        return run_check(prop, ck, tmp, replay, t0)
    except HarnessError as e:
        print(f'ERROR {e}')
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_check(prop, ck, tmp, replay, t0):
    global SEED, TIER, THOROUGH
    if replay:
        SEED, TIER = replay['seed'], replay['tier']
        THOROUGH = TIER == 'thorough'
    runs = [r for r in ck['runs'] if THOROUGH or not r.get('thorough_only')]
    if replay:
        runs = [r for r in runs if r['variant'] == replay['variant'] and r['driver'] == replay['driver']][:1]
    viol, stats, sets, samples, per_variant = [], {}, {}, [], {}
    xchk = {}
    pool = cf.ThreadPoolExecutor(NCPU)
    bpool = cf.ThreadPoolExecutor(NCPU)
    exes = {}
    byvar = {}
    for r in runs:
        byvar.setdefault(r['variant'], []).append(r)
    for var, rs in byvar.items():
        files = sorted({f for r in rs for f in r['files']})
        try:
            exes[var] = build(tmp, var, files, sorted({r['driver'] for r in rs}), bpool)
        except HarnessError as e:
            if not VARIANTS[var].get('optional'):
                raise
            # a platform the stand-in headers do not cover (any more)
            print(f'NOTE {var} cannot be built here: {str(e)[-300:]}'); sets.setdefault('builds_unavailable', set()).add(var)
    runs = [r for r in runs if r['variant'] in exes]
    jobs = []
    for r in runs:
        n = 1 if replay else r.get('shards', NCPU if r.get('shards_ncpu') else 8)
        for i in range(n):
            jobs.append(Job(prop, r, i, n, exes[r['variant']], tmp))
    extra = ('--case', replay['case']) if replay and replay['case'] not in ('-', '?') else ()
    # long jobs first
    jobs.sort(key=lambda j: -j.run.get('weight', 1))
    for j in pool.map(lambda j: j.go(extra), jobs):
        r = j.run
        tag = f"{r['variant']}/{r['driver']}"
        only = r.get('only')        # regex of violation keys that count for this property
        done = False
        for l in j.out.splitlines():
            if l.startswith('VIOL '):
                _, key, rest = l.split(' ', 2)
                if only and not re.match(only, key):
                    continue
                m = re.match(r'case=(\S+) (.*)', rest)
                viol.append(dict(key=key, case=m.group(1) if m else '?', desc=m.group(2) if m else rest, variant=r['variant'], driver=r['driver']))
                if r.get('valgrind') and key == 'secret-dependent':
                    viol[-1]['desc'] += ''.join(f' [{d[:200]}]' for _, d in reports(j, r)[-1:])
            elif l.startswith('STAT '):
                _, k, n = l.split()
                stats[k] = stats.get(k, 0) + int(n)
                if k == 'evaluations':
                    per_variant[tag] = per_variant.get(tag, 0) + int(n)
            elif l.startswith('SET '):
                p = l.split(' ', 2)
                sets.setdefault(p[1], set()).add(p[2])
            elif l.startswith('XCHK '):       # same name -> same value in every build
                _, k, val = l.split(' ', 2)
                a = xchk.setdefault(k, (val, tag))
                if a[0] != val and not (only and not re.match(only, 'build-dependent')):
                    viol.append(dict(key='build-dependent', case=k.split('=')[0], desc=f'{k}: {a[1]} gives {a[0]}, {tag} gives {val}', variant=r['variant'], driver=r['driver']))
            elif l.startswith('SAMPLE '):
                samples.append(f'{tag} {l[7:]}')
            elif l == 'DONE':
                done = True
        if r.get('must_report'):      # a deliberate violation: the monitor has to see it
            if not any(k.startswith(r['must_report']) for k, _ in reports(j, r)):
                raise HarnessError(f'{tag}: the monitor missed a planted violation')
            continue
        if j.rc == 9:
            raise HarnessError(f'harness failure in {tag}: {j.err[-2000:]}')
        if j.hang:
            viol.append(dict(key='hang', case=j.case(), desc=f'no progress within {STALL} s', variant=r['variant'], driver=r['driver']))
        elif j.wall:
            stats['processes_given_up'] = stats.get('processes_given_up', 0) + 1
        elif (j.rc != 0 and j.rc != 7) or not done and j.rc == 0:
            if r.get('crash_ok'):
                stats['foreign_crash'] = stats.get('foreign_crash', 0) + 1
            elif j.rc in (65, 66) or re.search(r'ERROR: \w+Sanitizer|runtime error:|WARNING: \w+Sanitizer|ERROR SUMMARY', j.err) or True:
                for k, d in (reports(j, r)):
                    viol.append(dict(key=k, case=j.case(), desc=d, variant=r['variant'], driver=r['driver']))
    kf = known_findings()
    known, new = {}, []
    for v in viol:
        for p, rx, what in kf:
            if p == prop and rx.fullmatch(v['key']):
                known.setdefault((p, what), []).append(v)
                break
        else:
            new.append(v)
    for (p, what), vs in sorted(known.items()):
        print(f'KNOWN-FINDING: property={p} {what} [{len(vs)} observations]')
    if replay:
        for v in viol:
            print('REPLAYED', json.dumps(v))
        return 1 if new else 0
    # a monitor that observed nothing is an error of the check, not a pass; how much it observes of things that depend on how the code
    # is structured (allocations made, comparisons met, ...) is only reported
    shortfalls = []
    for k, lo in ck.get('require', {}).items():
        got = stats.get(k, len(sets.get(k, ())))
        if not new and got < lo:
            if k in STRUCTURAL or k in ck.get('soft', ()):
                shortfalls.append(f'{k} = {got} < {lo}')
                print(f'NOTE observed less than usual: {k} = {got} < {lo}')
                continue
            raise HarnessError(f'monitor observed too little: {k} = {got} < {lo}')
    wall = round(time.time() - t0, 2)
    cov = dict(evaluations=stats.get('evaluations', 0), distinct_nontrivial=stats.get('distinct_nontrivial', 0), rule=ck['rule'], samples=samples[:12] or ['(no sample: stopped early)'],
               per_build=per_variant, observed={k: v for k, v in sorted(stats.items()) if k not in ('evaluations', 'distinct_nontrivial')},
               observed_sets={k: dict(distinct=len(v), examples=sorted(v)[:12]) for k, v in sorted(sets.items())})
    if shortfalls:
        cov['shortfalls'] = shortfalls
    if xchk:
        cov['values_compared_across_builds'] = len(xchk)
    if known:
        cov['known_findings_observed'] = {w: len(v) for (_, w), v in known.items()}
    evd = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=int(SEED), level=ck['level'], coverage=cov, assumptions=ck['assumptions'], wall_s=wall, violations=len(new))
    os.makedirs(f'{V}/evidence/replays', exist_ok=True)
    json.dump(evd, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    if new:
        seen = {}
        for v in new:
            seen.setdefault(v['key'], []).append(v)
        for key, vs in list(seen.items())[:8]:
            v = dict(vs[0], seed=SEED, tier=TIER, property=prop)
            path = f'evidence/replays/{prop}-{hashlib.sha1((key + v["case"] + v["variant"]).encode()).hexdigest()[:10]}.json'
            json.dump(v, open(f'{V}/{path}', 'w'), indent=1)
            print(f'{key}: {v["desc"][:600]} (case {v["case"]}, build {v["variant"]}, {len(vs)} observations)')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'OK {prop}: {cov["evaluations"]} evaluations, {cov["distinct_nontrivial"]} distinct, {wall} s')
    return 0


def reports(j, r):
    """sanitizer / valgrind / crash reports of a process -> [(key, description)]"""
    err = j.err
    if r.get('valgrind'):
        blocks, cur = [], []
        for l in err.splitlines():
            l2 = re.sub(r'^==\d+== ?', '', l)
            if re.match(r'(Conditional jump|Use of uninit|Syscall param|Invalid (read|write)|Argument|Source and dest)', l2):
                cur = [l2]; blocks.append(cur)
            elif cur is not None and l2.strip() and blocks:
                cur.append(l2)
        out = {}
        for b in blocks:
            fr = [m.group(1) for m in (re.search(r'(?:at|by) 0x[0-9A-F]+: (\S+)', x) for x in b) if m]
            fr = [f for f in fr if not f.startswith('drv_')]
            key = 'valgrind:' + re.sub(r'[^A-Za-z]+', '-', b[0])[:40] + ':' + '<'.join(fr[:2])
            out.setdefault(key, ' | '.join(b[:6]))
        if out:
            return list(out.items())
    ts = re.findall(r'WARNING: ThreadSanitizer: ([\w ]+?) \(.*?\n(.*?)\n={10,}', err, re.S)
    if ts:
        out = {}
        for kind, body in ts:
            fr = [f for f in re.findall(r'#0 (\w+)', body)][:2]
            out.setdefault(f'tsan:{kind.replace(" ", "-")}:{"+".join(fr)}', body[:1200].replace('\n', ' / '))
        return list(out.items())
    tail = re.search(r'(ERROR: \w+Sanitizer.*|.*runtime error:.*|WARNING: MemorySanitizer.*)', err)
    i = tail.start() if tail else max(0, len(err) - 800)
    return [(san_key(err, j.rc), (err[i:i + 1200] or f'process ended with status {j.rc} without finishing its cases').replace('\n', ' / '))]


if __name__ == '__main__':
    sys.exit(main())
