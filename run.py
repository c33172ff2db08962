#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  run.py Cxx                 tier from VERIF_TIER (quick), seed from VERIF_SEED (1)
  run.py Cxx --replay FILE   run one saved case
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Anything else is an error of the check itself (e.g. the tree does not build)."""
import hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
HARN = os.path.join(HERE, 'harness')
NSHARD = 8
SAN = ('-ftrivial-auto-var-init=pattern -fsanitize=address,bounds,alignment,bool,shift-exponent,signed-integer-overflow,integer-divide-by-zero,null,return,unreachable '
       '-fno-sanitize-recover=all -fno-omit-frame-pointer')
FLAVOURS = {
    # CC, CFLAGS for the library (the harness is not instrumented), link flags
    'asan': ('clang', '-std=c99 -O1 -g ' + SAN, '-fsanitize=address,undefined'),
    'tsan': ('clang', '-std=c99 -O1 -g -ftrivial-auto-var-init=pattern -fsanitize=thread', '-fsanitize=thread'),
    'fast': ('cc', '-std=c99 -O2', ''),
    'plain': (None, None, ''),  # as the repository's own makefile builds it
    'count': ('clang', '-std=c99 -O1 -g -fno-builtin -fsanitize-coverage=trace-pc-guard',
              ' '.join('-Wl,--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strlen', 'strnlen'))),
    'fuzz': ('clang', '-std=c99 -O1 -g -fsanitize=fuzzer-no-link ' + SAN, '-fsanitize=fuzzer,address,undefined'),
}
OMIT = {'fuzz': ('main.o', 'count.o'), 'count': ('fuzz.o',)}  # else fuzz.o, count.o
A8 = ['asan'] * 8
A6P2 = ['asan'] * 6 + ['plain'] * 2
# property: (flavours of the 8 shards, random cases per shard quick, thorough)
PLAN = {
    'C01': (A8, 150000, 4000000), 'C02': (A8, 100000, 3000000),
    'C03': (['asan'] * 7 + ['plain'], 60000, 2500000),
    'C04': (A6P2, 250000, 9000000), 'C05': (A6P2, 250000, 9000000),
    'C06': (A6P2, 250000, 9000000), 'C07': (A6P2, 250000, 9000000),
    'C08': (A6P2, 150000, 5000000), 'C09': (A6P2, 250000, 9000000),
    'C10': (A8, 30000, 1200000), 'C11': (A6P2, 60000, 1500000),
    'C12': (A6P2, 250000, 9000000), 'C13': (A8, 60000, 2500000),
    'C14': (A6P2, 150000, 6000000), 'C15': (A6P2, 250000, 9000000),
    'C16': (A6P2, 150000, 6000000), 'C17': (A6P2, 250000, 9000000),
    'C18': (A8, 80000, 3000000), 'C19': (A8, 80000, 3000000), 'C20': (A8, 80000, 3000000),
    'C21': (['tsan'] * 4 + ['asan'] * 3 + ['plain'], 6000, 250000),
    'C22': (['plain'] * 8, 0, 0), 'C23': (['count'] * 8, 800, 15000),
    'C25': (['fast'] * 8, 2000, 100000),
    'C26': (['plain'], 0, 0),
    'C24': (['plain'] * 6 + ['asan'] * 2, 3000, 40000),  # cases per set of data files
}
NOFUZZ = ('C22', 'C23', 'C24', 'C25')
DATASETS = {'quick': 72, 'thorough': 4000}  # C24
CAP = {'quick': 100, 'thorough': 420}
LONGER = {'C25': 250}                     # seconds per shard; a cap hit is reported, not judged
FUZZ_SECONDS = 240                        # thorough only, after the shards
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:quarantine_size_mb=8:abort_on_error=0:allocator_may_return_null=0:malloc_context_size=1:symbolize=1',
           UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66:second_deadlock_stack=0')


def die(msg):
    print('run.py: ' + msg, file=sys.stderr)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def repo_files():
    r = subprocess.run(['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-z', '-co', '--exclude-standard'],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    if r.returncode == 0 and r.stdout:
        names = [f.decode('utf-8', 'surrogateescape') for f in r.stdout.split(b'\0') if f]
    else:
        names = []
        for d, ds, fs in os.walk(REPO):
            ds[:] = [x for x in ds if x not in ('.git', '_build')]
            names += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
    return sorted(f for f in set(names) if os.path.isfile(os.path.join(REPO, f)))


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for name, p in paths:
        h.update(name.encode('utf-8', 'surrogateescape') + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def publish(tmp, final):
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)  # someone else was faster
    return final


def build_harness():
    """The harness objects depend on /verif and grapheme.h only."""
    srcs = sorted(f for f in os.listdir(HARN) if f.endswith('.cpp'))
    files = [(f, os.path.join(HARN, f)) for f in sorted(os.listdir(HARN))]
    files.append(('grapheme.h', os.path.join(REPO, 'grapheme.h')))
    final = os.path.join(BUILD, 'harness-' + digest(files))
    if os.path.isdir(final):
        return final
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    shutil.copy(os.path.join(REPO, 'grapheme.h'), tmp)
    ps = []
    for f in srcs:
        ps.append((f, subprocess.Popen(['clang++', '-std=c++17', '-O2', '-g1', '-I' + tmp, '-c', os.path.join(HARN, f),
                                        '-o', os.path.join(tmp, f[:-4] + '.o')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for f, p in ps:
        o = p.communicate()[0]
        if p.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            die('cannot compile %s:\n%s' % (f, o))
    return publish(tmp, final)


def make_lib(tree, fl, jobs):
    env = {k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MFLAGS', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS')}
    cc, cflags, _ = FLAVOURS[fl]
    cmd = ['make', '-j%d' % jobs, 'libgrapheme.a', 'ANAME=libgrapheme.a', 'BUILD_CC=cc', 'BUILD_CFLAGS=-std=c99 -O1', 'BUILD_LDFLAGS=']
    if cc:
        cmd += ['CC=' + cc, 'CFLAGS=' + cflags]
    return sh(cmd, cwd=tree, env=env)


def build_lib(need):
    """libgrapheme.a of /repo's working tree in every needed flavour, by the
    repository's own makefile, from a copy outside of it."""
    names = repo_files()
    key = digest([(f, os.path.join(REPO, f)) for f in names], json.dumps([(k, FLAVOURS[k]) for k in sorted(need)]))
    final = os.path.join(BUILD, 'lib-' + key)
    if os.path.isdir(final):
        return final
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    tree = os.path.join(tmp, 'tree')
    for f in names:
        if f.startswith(('man/', 'benchmark/')):
            pass
        d = os.path.join(tree, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy(os.path.join(REPO, f), d)
    for fl in sorted(need):
        for d, ds, fs in os.walk(tree):
            for f in fs:
                if f.endswith(('.a',)) or (f.endswith('.o') and os.path.basename(d) != 'gen'):
                    os.remove(os.path.join(d, f))
        r = make_lib(tree, fl, 8)
        if r.returncode or not os.path.exists(os.path.join(tree, 'libgrapheme.a')):
            shutil.rmtree(tmp, ignore_errors=True)
            die('the tree does not build (%s):\n%s' % (fl, r.stdout[-4000:]))
        shutil.copy(os.path.join(tree, 'libgrapheme.a'), os.path.join(tmp, fl + '.a'))
    shutil.rmtree(tree)
    return publish(tmp, final)


def link(h, fl, lib, out):
    objs = [os.path.join(h, f) for f in sorted(os.listdir(h)) if f.endswith('.o') and f not in OMIT.get(fl, ('fuzz.o', 'count.o'))]
    return subprocess.Popen(['clang++', '-o', out] + objs + [lib, '-lpthread'] + FLAVOURS[fl][2].split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(need):
    h, l = build_harness(), build_lib(need)
    final = os.path.join(BUILD, 'bin-' + hashlib.sha256((h + l).encode()).hexdigest()[:20])
    if not os.path.isdir(final):
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
        ps = []
        for fl in need:
            ps.append((fl, link(h, fl, os.path.join(l, fl + '.a'), os.path.join(tmp, fl))))
        for fl, p in ps:
            o = p.communicate()[0]
            if p.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                die('cannot link (%s):\n%s' % (fl, o[-4000:]))
        publish(tmp, final)
    # keep the cache small: the newest few of each kind
    for pre in ('lib-', 'bin-', 'harness-', 'tmp-'):
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(pre)]
        ds = sorted((d for d in ds if d not in (h, l, final)), key=lambda d: os.path.getmtime(d) if os.path.exists(d) else 0)
        for d in ds[:-12]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    return final


def known_keys(pid):
    """open findings of this property: key -> description"""
    out = {}
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e.get('property') == pid and e.get('status') == 'open':
                    out[e['key']] = e['what']
    return out


def violation(pid, replay, msg):
    print('property %s is broken; smallest case found:' % pid)
    for l in msg.strip().splitlines()[:40]:
        print('  ' + l)
    print('VIOLATION property=%s replay=%s' % (pid, replay))
    sys.stdout.flush()


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PLAN:
        die('usage: run.py PROPERTY [--replay FILE]')
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in CAP:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    flav, nq, nt = PLAN[pid]
    need = sorted(set(flav) | ({'fuzz', 'asan'} if tier == 'thorough' and pid not in NOFUZZ else set()))
    known = known_keys(pid)
    kn = ','.join(sorted(known))
    if pid == 'C24':
        import c24
        sys.exit(c24.main(sys.modules[__name__], tier, seed, t0, known, kn))
    if pid == 'C26':
        import c26
        sys.exit(c26.main(sys.modules[__name__], tier, seed, t0))
    if '--replay' in sys.argv:
        f = sys.argv[sys.argv.index('--replay') + 1]
        text = open(f, errors='replace').read()
        fl = next((l.split()[1] for l in text.splitlines() if l.startswith('flavour ')), 'asan')
        b = build(sorted(set(need) | {fl}))
        hist = next((l.split()[1:] for l in text.splitlines() if l.startswith('history ')), None)
        if hist:
            with tempfile.TemporaryDirectory() as w:
                r = sh([os.path.join(b, fl), 'run', pid] + hist + ['--known', kn, '--current', w + '/c', '--out', w + '/o', '--hashes', w + '/h'], env=ENV)
        else:
            r = sh([os.path.join(b, fl), 'replay', pid, f, '--known', kn], env=ENV)
        print(r.stdout)
        if r.returncode:
            violation(pid, f, 'replayed')
        sys.exit(1 if r.returncode else 0)

    bindir = build(need)
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    replays = os.path.join(HERE, 'evidence', 'replays')
    rc = 1
    try:
        rc = explore(pid, tier, seed, t0, tb, flav, nq if tier == 'quick' else nt, bindir, work, replays, known, kn)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def explore(pid, tier, seed, t0, tb, flav, cases, bindir, work, replays, known, kn):
    cap = CAP[tier] + LONGER.get(pid, 0)
    base = lambda i: ['--seed', str(seed), '--shard', '%d/%d' % (i, NSHARD), '--cases', str(cases), '--seconds', str(cap)] + (['--thorough'] if tier == 'thorough' else [])
    cmd = lambda i, tag='': [os.path.join(bindir, flav[i]), 'run', pid] + base(i) + ['--known', kn, '--current', '%s/cur%d%s' % (work, i, tag),
                             '--out', '%s/out%d%s' % (work, i, tag), '--hashes', '%s/hash%d%s' % (work, i, tag)]
    procs = []
    for i in range(NSHARD):
        err = open('%s/err%d' % (work, i), 'w')
        procs.append(subprocess.Popen(cmd(i), stdout=err, stderr=err, env=ENV))
    deadline = time.time() + cap * 2 + 120
    failed = None
    live = set(range(NSHARD))
    while live and failed is None:
        time.sleep(0.05)
        for i in sorted(live):
            r = procs[i].poll()
            if r is not None:
                live.discard(i)
                if r != 0 and failed is None:
                    failed = (i, r)
        if time.time() > deadline and live:
            for p in procs:
                p.kill()
            print('run.py: shards %s did not end in time' % sorted(live), file=sys.stderr)
            return 2
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()

    stats = []
    for i in range(NSHARD):
        try:
            stats.append(json.load(open('%s/out%d' % (work, i))))
        except Exception:
            pass
    fuzz = None
    if failed is None and tier == 'thorough' and pid not in NOFUZZ:
        fuzz, failed = run_fuzz(pid, seed, bindir, work, kn)

    merged = sh([os.path.join(bindir, flav[0]), 'merge'] + ['%s/hash%d' % (work, i) for i in range(NSHARD)], env=ENV).stdout.strip()
    labels, khits = {}, {}
    samples = []
    for s in stats:
        for k, v in s['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s['known'].items():
            o = khits.setdefault(k, [0, v[1]])
            o[0] += v[0]
        samples += s['samples']
    samples = [samples[j] for j in sorted(random.Random(seed).sample(range(len(samples)), min(12, len(samples))))]
    rule = sh([os.path.join(bindir, flav[0]), 'rule', pid], env=ENV).stdout.strip()
    used = {f: flav.count(f) for f in sorted(set(flav))}
    cov = {'evaluations': sum(s['ran'] for s in stats), 'distinct_nontrivial': int(merged) if merged.isdigit() else 0,
           'rule': rule, 'samples': samples or ['(none completed)'],
           'library_calls': sum(s['calls'] for s in stats), 'labels': dict(sorted(labels.items())),
           'slowest_case_cpu_s': round(max([s['slowest_case_cpu_s'] for s in stats] or [0]), 3),
           'sweep_cases_done': sum(s['sweep_done'] for s in stats), 'sweep_cases_total': stats[0]['sweep_total'] if stats else 0,
           'shards_by_build': used, 'stopped_by_time_cap': any(s['cut'] for s in stats), 'build_s': round(tb, 1)}
    if fuzz:
        cov['coverage_guided'] = fuzz
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['the vendored Unicode 15.0.0 data files and the reference models in harness/ref_*.cpp (self-tested by setup_cmd against the official conformance tests)',
                          'clang/gcc and the sanitizer runtimes'],
          'known_findings_met': {k: v[0] for k, v in khits.items()}, 'violations': 0}

    def done(rc):
        ev['wall_s'] = round(time.time() - t0, 2)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        p = os.path.join(HERE, 'evidence', pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(p + '.tmp', p)
        return rc

    if failed is None:
        for k in sorted(known):
            n, first = khits.get(k, [0, ''])
            if n:
                print('KNOWN-FINDING: property=%s %s (%d times; first: %s)' % (pid, known[k], n, ' '.join(first.split())))
        print('%s: held; %d cases, %d distinct non-trivial, %d library calls, %.1f s' % (pid, cov['evaluations'], cov['distinct_nontrivial'], cov['library_calls'], time.time() - t0))
        return done(0)

    # --- a failure: minimise it, make sure of it, report it
    i, code = failed
    os.makedirs(replays, exist_ok=True)
    rep = os.path.join(replays, pid + '.case')
    if i == 'fuzz':
        fl, cur, errf = 'asan', fuzz['current'], fuzz['log']
    else:
        fl, cur, errf = flav[i], '%s/cur%d' % (work, i), '%s/err%d' % (work, i)
    exe = os.path.join(bindir, fl)
    first = open(errf, errors='replace').read()[:6000]
    shr = sh([exe, 'shrink', pid, cur, rep, '--known', kn, '--seconds', '45'], env=ENV)
    if os.path.exists(rep):
        body = open(rep, errors='replace').read()
        open(rep, 'w').write('flavour %s\n' % fl + body)
    ok = shr.returncode == 0
    if ok:
        hits, t = 0, time.time()
        for _ in range(3):
            hits += sh([exe, 'replay', pid, rep, '--known', kn], env=ENV).returncode not in (0, 2)
            if time.time() - t > 20:
                break
        ok = hits > 0
        msg = shr.stdout if ok else ''
    if not ok and i != 'fuzz':
        # not reproducible on its own: does the whole history of the shard fail again?
        again = subprocess.run(cmd(i, 'again'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV)
        if again.returncode not in (0, 2):
            ok = True
            msg = 'only after the cases before it in the same process (hidden state):\n' + first
            open(rep, 'w').write('property %s\nflavour %s\nhistory %s\n' % (pid, fl, ' '.join(base(i))) + ''.join('# %s\n' % l for l in first.splitlines()))
    if not ok:
        print('run.py: a failure did not reproduce (shard %s, exit %s):\n%s' % (i, code, first), file=sys.stderr)
        if shr.returncode == 2 or code in (-9, 2):
            return 2
        ev['unreproduced'] = first[:1500]
        msg = 'seen once, not reproduced:\n' + first
        open(rep, 'w').write('property %s\nflavour %s\nhistory %s\n' % (pid, fl, ' '.join(base(i)) if i != 'fuzz' else '') + ''.join('# %s\n' % l for l in first.splitlines()))
    ev['violations'] = 1
    ev['violation'] = {'replay': rep, 'message': msg[:3000]}
    violation(pid, rep, msg)
    return done(1)


def run_fuzz(pid, seed, bindir, work, kn):
    """coverage-guided search over the same generator and check"""
    ps = []
    for i in range(NSHARD):
        d = '%s/corpus%d' % (work, i)
        os.makedirs(d)
        for k in range(64 if i % 2 else 1):  # half of the campaigns start from random inputs
            r = random.Random(seed * 1000 + i * 64 + k)
            open('%s/%d' % (d, k), 'wb').write(bytes(r.randrange(256) for _ in range(r.randrange(8, 400))))
        log = open('%s/fuzz%d.log' % (work, i), 'w')
        env = dict(ENV, VP_PROP=pid, VP_CURRENT='%s/fcur%d' % (work, i), VP_KNOWN=kn, VP_STATS='%s/fstat%d' % (work, i))
        env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'] + ':handle_abort=0'
        ps.append(subprocess.Popen([os.path.join(bindir, 'fuzz'), d, '-seed=%d' % (seed * 100 + i + 1), '-max_total_time=%d' % FUZZ_SECONDS, '-max_len=1024',
                                    '-len_control=20', '-timeout=30', '-rss_limit_mb=3000', '-print_final_stats=1', '-artifact_prefix=%s/art%d-' % (work, i)],
                                   stdout=log, stderr=log, env=env, cwd=work))
    bad = None
    end = time.time() + FUZZ_SECONDS + 120
    while any(p.poll() is None for p in ps) and bad is None and time.time() < end:
        time.sleep(0.2)
        for i, p in enumerate(ps):
            if p.poll() not in (None, 0):
                bad = i
    for p in ps:
        if p.poll() is None:
            p.kill()
        p.wait()
    ran = nt = 0
    cov = []
    for i in range(NSHARD):
        try:
            a, b = open('%s/fstat%d' % (work, i)).read().split()
            ran, nt = ran + int(a), nt + int(b)
        except Exception:
            pass
        t = open('%s/fuzz%d.log' % (work, i), errors='replace').read()
        c = [l.split('cov: ')[1].split()[0] for l in t.splitlines() if 'cov: ' in l]
        if c:
            cov.append(int(c[-1]))
    out = {'executions': ran, 'nontrivial_executions': nt, 'edges_covered_by_campaign': cov, 'seconds': FUZZ_SECONDS}
    if bad is not None:
        out['current'] = '%s/fcur%d' % (work, bad)
        out['log'] = '%s/fuzz%d.log' % (work, bad)
        return out, ('fuzz', ps[bad].returncode)
    return out, None


if __name__ == '__main__':
    main()
