"""C26: the same generated cases on the library as made by different compilers,
with different options and for 32 bit, tables included; all must agree."""
import hashlib, json, os, random, shutil, struct, subprocess, sys, tempfile, time
import concurrent.futures as cf

R = WORK = None
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'portable')
M32 = '-m32 -DBARE -ffreestanding -fno-stack-protector -isystem %s/stub' % D
# name: (CC, CFLAGS, compiler and flags of the table generators)
BUILDS = {
    'gcc -Os': ('gcc', '-std=c99 -Os', 'gcc -O1'),
    'gcc -O3, unsigned char': ('gcc', '-std=c99 -O3 -funsigned-char', 'gcc -O2 -funsigned-char'),
    'gcc -O0, short enums': ('gcc', '-std=c99 -O0 -fshort-enums', 'gcc -O0 -fshort-enums'),
    'gcc -O1 -std=gnu2x, zeroed locals': ('gcc', '-std=gnu2x -O1 -fshort-enums -funsigned-char -ftrivial-auto-var-init=zero', None),
    'clang -O3 -fPIC, unsigned char': ('clang', '-std=c99 -O3 -fPIC -ffreestanding -funsigned-char', 'clang -O1 -funsigned-char'),
    'clang -O0, patterned locals': ('clang', '-std=c99 -O0 -ftrivial-auto-var-init=pattern', 'clang -O2 -ftrivial-auto-var-init=pattern'),
    'clang -m32 -O2': ('clang', '-std=c99 -O2 ' + M32, None),
    'clang -m32 -O1, unsigned char, short enums': ('clang', '-std=c99 -O1 -funsigned-char -fshort-enums ' + M32, None),
}
REF = 'gcc -Os'
RULE = ('a text (bytes for two cases in five, else code points) with at least two positions where a code point or lead byte outside of ASCII differs from what is in front of it; '
        'distinct by all of its parameters')


def tree():
    t = os.path.join(WORK, 'tree')
    for f in R.repo_files():
        if f.startswith(('test/', 'benchmark/', 'man/')):
            continue
        p = os.path.join(t, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f.startswith('data/'):
            os.symlink(os.path.join(R.REPO, f), p)
        else:
            shutil.copy(os.path.join(R.REPO, f), p)
    return t


def build(job):
    """(name, program or None, message)"""
    name, src, k = job
    cc, cflags, gen = BUILDS[name]
    t = os.path.join(WORK, 'b%d' % k)
    shutil.copytree(src, t, symlinks=True)
    env = {x: v for x, v in os.environ.items() if x not in ('MAKEFLAGS', 'MFLAGS', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS')}
    g = (gen or 'gcc -O1').split(' ', 1)
    r = R.sh(['sh', '-c', 'ulimit -v 4000000; exec timeout -k 5 200 make "$@"', 'make', '-j3', 'libgrapheme.a', 'ANAME=libgrapheme.a', 'CC=' + cc, 'CFLAGS=' + cflags, 'BUILD_CC=' + g[0], 'BUILD_CFLAGS=-std=c99 ' + g[1], 'BUILD_LDFLAGS='], cwd=t, env=env)
    lib = os.path.join(t, 'libgrapheme.a')
    if r.returncode or not os.path.exists(lib):
        if r.returncode == 124 or any(l.startswith('make') and '/' in l and '.h]' in l for l in r.stdout.splitlines()):
            return name, False, 'the tables cannot be made with a generator compiled by "%s":\n%s' % (gen, r.stdout[-1500:])
        return name, None, r.stdout[-1500:]
    exe = os.path.join(WORK, 'exe%d' % k)
    r = R.sh([cc] + cflags.replace('-std=c99', '-std=gnu99').split() + ['-w', '-I', os.path.join(R.REPO), '-I', D, os.path.join(D, 'driver.c'), lib, '-o', exe] +
             (['-nostdlib', '-static'] if '-m32' in cflags else []), env=env)
    if r.returncode:
        return name, None, r.stdout[-1500:]
    p = subprocess.run([exe], input=struct.pack('<4I', 2, 1, 1, 0), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    shutil.rmtree(t)
    if len(p.stdout) < 24:
        return name, None, 'does not run: %d' % p.returncode
    return name, exe, ''


def digests(exe, seed, first, count, timeout=300):
    """17 bytes for each case; short when the program crashed or hung"""
    try:
        p = subprocess.run([exe], input=struct.pack('<4I', 1, seed, first, count), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        return p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        return e.stdout or b'', 'no end'


def case(exe, seed, i):
    p = subprocess.run([exe], input=struct.pack('<4I', 2, seed, i, 0), stdout=subprocess.PIPE)
    return p.stdout[4:4 + struct.unpack('<I', p.stdout[:4])[0]]


def observe(exe, c):
    try:
        p = subprocess.run([exe], input=struct.pack('<4I', 3, 0, 0, len(c)) + c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=30)
    except subprocess.TimeoutExpired:
        return 'no end'
    if p.returncode:
        return 'ends with %d' % p.returncode
    return p.stdout[4:]


def split(c):
    h = struct.unpack('<5I', c[:20])
    return h, (list(c[20:]) if h[0] else list(struct.unpack('<%dI' % h[4], c[20:])))


def join(h, u):
    return struct.pack('<5I', h[0], h[1], h[2], h[3], len(u)) + (bytes(u) if h[0] else struct.pack('<%dI' % len(u), *u))


def show(c):
    h, u = split(c)
    return '%s, direction %d, destination %d, part %d: %s' % ('bytes' if h[0] else 'code points', h[1], h[2], h[3], ' '.join('%02X' % x for x in u))


def parse(line):
    a = [int(x) for x in line.split(' : ')[0].split()]
    return join(a + [0], [int(x, 16) for x in line.split(' : ')[1].split()] if ' : ' in line and line.split(' : ')[1].strip() else [])


def differs(exes, c):
    ref = observe(exes[REF], c)
    for n, e in exes.items():
        if n != REF:
            o = observe(e, c)
            if o != ref:
                return n, o, ref
    return None


def shrink(exes, name, c, end):
    two = {REF: exes[REF], name: exes[name]}
    chunk = max(1, len(split(c)[1]) // 2)
    while time.time() < end:
        h, u = split(c)
        for j in range(0, len(u), chunk):
            d = join(h, u[:j] + u[j + chunk:])
            if differs(two, d):
                c = d
                break
        else:
            if chunk == 1:
                break
            chunk //= 2
        chunk = max(1, min(chunk, len(split(c)[1]) // 2))
    h, u = split(c)
    for k, v in ((1, 0), (2, 4 * len(u) + 8), (2, 0), (3, 0)):
        g = list(h)
        g[k] = v
        if differs(two, join(g, u)):
            h = g
    for j in range(len(u)):
        for x in (0x61, 0x20, 0x31):
            d = u[:j] + [x] + u[j + 1:]
            if u[j] != x and differs(two, join(h, d)):
                u = d
                break
    return join(h, u)


def explain(exes, c):
    d = differs(exes, c)
    if not d:
        return None
    n, o, ref = d
    if isinstance(o, str) or isinstance(ref, str):
        return '%s\nbuild "%s": %s\nbuild "%s": %s' % (show(c), REF, ref if isinstance(ref, str) else 'ends', n, o if isinstance(o, str) else 'ends')
    k = next((k for k in range(min(len(o), len(ref))) if o[k] != ref[k]), min(len(o), len(ref)))
    return '%s\nthe builds "%s" and "%s" differ at byte %d of what is observed: ...%s and ...%s' % (show(c), REF, n, k, ref[max(0, k - 8):k + 8].hex(), o[max(0, k - 8):k + 8].hex())


def main(run, tier, seed, t0):
    global R, WORK
    R = run
    R.build_lib(['plain'])  # a tree that does not build at all is not this property's business
    WORK = tempfile.mkdtemp(prefix='vp-C26-')
    try:
        t = tree()
        exes, notes, broken = {}, {}, None
        with cf.ThreadPoolExecutor(8) as ex:
            for n, e, msg in ex.map(build, [(n, t, k) for k, n in enumerate(BUILDS)]):
                if e is False:
                    broken = (n, msg)
                elif e:
                    exes[n] = e
                else:
                    notes[n] = msg
        exes = {n: exes[n] for n in BUILDS if n in exes}
        if broken and broken[0] != REF:
            rep = os.path.join(R.HERE, 'evidence', 'replays', 'C26.case')
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            open(rep, 'w').write('# build "%s"\n' % broken[0] + ''.join('# %s\n' % l for l in broken[1].splitlines()))
            R.violation('C26', rep, 'build "%s": %s' % broken)
            return 1
        if REF not in exes or len(exes) < 3:
            R.die('C26: too few of the builds can be made: %s' % json.dumps(notes)[:3000])
        if '--replay' in sys.argv:
            f = sys.argv[sys.argv.index('--replay') + 1]
            c = next((l for l in open(f) if l[0].isdigit()), None)
            m = c and explain(exes, parse(c))
            print(m or 'pass')
            if m:
                R.violation('C26', f, m)
            return 1 if m else 0
        return explore(tier, seed, t0, exes, notes)
    finally:
        shutil.rmtree(WORK, ignore_errors=True)


def explore(tier, seed, t0, exes, notes):
    tb = time.time() - t0
    end = time.time() + (120 if tier == 'quick' else 620)
    n_cases = 400000 if tier == 'quick' else 1 << 31
    chunk, first, total = 20000, 0, 0
    seen, bytes_, bad = set(), 0, None
    s = (seed * 1000003 + 12345) % (1 << 32)
    with cf.ThreadPoolExecutor(8) as ex:
        while time.time() < end and bad is None and first < n_cases:
            out = dict(zip(exes, ex.map(lambda e: digests(e, s, first, chunk), exes.values())))
            ref, rc = out[REF]
            for n, (o, r) in out.items():
                if o == ref and r == rc == 0:
                    continue
                k = 17 * chunk
                for j in range(0, k, 17):
                    if o[j:j + 17] != ref[j:j + 17] or len(o) < j + 17:
                        k = j
                        break
                bad = (n, first + k // 17, first + k // 17 // 1024 * 1024, o == ref)
                break
            if bad:
                break
            total += chunk
            for j in range(0, len(ref), 17):
                f = ref[j + 16]
                if f & 1 and len(seen) < 20000000:
                    seen.add(ref[j + 1:j + 16:2])
                bytes_ += f >> 1
            first += chunk
    rnd = random.Random(seed)
    samples = [show(case(exes[REF], s, rnd.randrange(max(1, total)))) for _ in range(12)]
    ev = {'property': 'C26', 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {
        'evaluations': total, 'distinct_nontrivial': len(seen), 'rule': RULE, 'samples': samples,
        'builds_compared': list(exes), 'builds_not_made': notes, 'labels': {'bytes': bytes_, 'code points': total - bytes_}, 'build_s': round(tb, 1)},
        'assumptions': ['the machine runs 32 bit programs (else the two builds for 32 bit are left out, see builds_not_made)', 'gcc and clang', 'both compilers are little-endian targets here'],
        'known_findings_met': {}, 'violations': 0}

    def done(rc):
        ev['wall_s'] = round(time.time() - t0, 2)
        os.makedirs(os.path.join(R.HERE, 'evidence'), exist_ok=True)
        p = os.path.join(R.HERE, 'evidence', 'C26.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(p + '.tmp', p)
        return rc

    if bad is None:
        print('C26: held; %d cases on %d builds, %d distinct non-trivial, %.1f s' % (total, len(exes), len(seen), time.time() - t0))
        return done(0)
    # the first case that differs; after a crash it is among those whose digests were not handed out
    n, i, lo, _ = bad
    c = msg = None
    for j in [i] + list(range(lo, lo + 1024)):
        x = case(exes[REF], s, j)
        d = differs({REF: exes[REF], n: exes[n]}, x)
        if d:
            c = shrink(exes, n, x, time.time() + 45)
            msg = explain({REF: exes[REF], n: exes[n]}, c)
            break
    if c is None:
        print('run.py: a difference of "%s" near case %d did not reproduce' % (n, i), file=sys.stderr)
        return 2
    h, u = split(c)
    rep = os.path.join(R.HERE, 'evidence', 'replays', 'C26.case')
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, 'w') as f:
        f.write('# bytes? direction destination part : text\n%d %d %d %d : %s\n' % (h[0], h[1], h[2], h[3], ' '.join('%X' % x for x in u)) +
                ''.join('# %s\n' % l for l in msg.splitlines()))
    ev['violations'] = 1
    ev['violation'] = {'replay': rep, 'message': msg[:3000]}
    R.violation('C26', rep, msg)
    return done(1)
