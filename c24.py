"""C24: builds the library from generated data files and runs the checks of
harness/props_data.cpp on it, one set of files after the other."""
import json, multiprocessing, os, random, shutil, sys, tempfile, time
import datagen

R = BASE = H = TREE = WORK = None  # run.py, vendored data, harness objects, scratch tree without data, scratch


def make(ops, fl, d, jobs=1):
    """the check's program for these data files in d: (None or message, program, tables)"""
    m = datagen.Model(BASE, ops)
    tree = os.path.join(d, 'tree')
    shutil.copytree(TREE, tree)
    m.write(os.path.join(tree, 'data'))
    tab = os.path.join(d, 'tables')
    with open(tab, 'wb') as f:
        f.write(m.tables())
    r = R.make_lib(tree, fl, jobs)
    lib = os.path.join(tree, 'libgrapheme.a')
    if r.returncode or not os.path.exists(lib):
        return 'the library does not build from these well-formed data files:\n' + r.stdout[-3000:], None, None
    exe = os.path.join(d, 'exe')
    p = R.link(H, fl, lib, exe)
    o = p.communicate()[0]
    if p.returncode:
        return 'the library made from these well-formed data files does not link:\n' + o[-3000:], None, None
    shutil.rmtree(tree)
    return None, exe, tab


def env(tab):
    return dict(R.ENV, VP_UCD=tab)


def one(job):
    """generate, build and run one data set"""
    i, seed, fl, cases, end, kn, thorough = job
    if time.time() > end:
        return dict(i=i, skipped=True)
    d = tempfile.mkdtemp(prefix='set%d-' % i, dir=WORK)
    ops = datagen.plan(BASE, seed, i)
    out = dict(i=i, fl=fl, ops=ops, rc=0, dir=d)
    msg, exe, tab = make(ops, fl, d)
    if msg:
        out.update(rc=20, msg=msg)
        return out
    r = R.sh([exe, 'run', 'C24', '--seed', str(seed * 100003 + i), '--shard', '0/1', '--cases', str(cases), '--seconds', '200', '--known', kn,
              '--current', d + '/cur', '--out', d + '/out', '--hashes', os.path.join(WORK, 'hash%d' % i)] + (['--thorough'] if thorough else []), env=env(tab))
    out['rc'] = r.returncode
    if r.returncode:
        out['msg'] = r.stdout[-6000:]
        return out
    out['stat'] = json.load(open(d + '/out'))
    shutil.rmtree(d)
    return out


def fails(job):
    """does the case (or the build, case None) still fail with these operations?"""
    ops, fl, case, kn, end = job
    if time.time() > end:
        return False
    d = tempfile.mkdtemp(prefix='try-', dir=WORK)
    try:
        msg, exe, tab = make(ops, fl, d)
        if case is None:
            return bool(msg)
        if msg:
            return False
        return R.sh([exe, 'replay', 'C24', case, '--known', kn], env=env(tab)).returncode not in (0, 2)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def setup(run):
    global R, BASE, H, TREE, WORK
    R = run
    H = R.build_harness()
    R.build_lib(['plain'])  # a tree that does not build at all is not this property's business
    BASE = datagen.Base()
    WORK = tempfile.mkdtemp(prefix='vp-C24-')
    TREE = os.path.join(WORK, 'base')
    for f in R.repo_files():
        if f.startswith(('test/', 'benchmark/', 'man/')) or os.path.basename(f) in datagen.READ and f.startswith('data/'):
            continue
        p = os.path.join(TREE, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copy(os.path.join(R.REPO, f), p)
    # the generators and what does not depend on data, once
    r = R.sh(['make', '-j8', '-k'] + ['gen/%s' % g for g in ('util.o', 'bidirectional.o', 'case.o', 'character.o', 'line.o', 'sentence.o', 'word.o')] +
             ['BUILD_CC=cc', 'BUILD_CFLAGS=-std=c99 -O1', 'BUILD_LDFLAGS='], cwd=TREE)
    os.makedirs(os.path.join(TREE, 'data'), exist_ok=True)
    return r


def main(run, tier, seed, t0, known, kn):
    setup(run)
    kn = ','.join(sorted(run.known_keys('C19')))  # reported by C19's own check
    try:
        if '--replay' in sys.argv:
            f = sys.argv[sys.argv.index('--replay') + 1]
            text = open(f, errors='replace').read()
            get = lambda k, dflt: next((l[len(k) + 1:] for l in text.splitlines() if l.startswith(k + ' ')), dflt)
            case = f if get('case', 'yes') == 'yes' else None
            bad = fails((json.loads(get('data', '[]')), get('flavour', 'plain'), case, kn, time.time() + 600))
            print('fails' if bad else 'pass')
            if bad:
                R.violation('C24', f, 'replayed')
            return 1 if bad else 0
        return explore(tier, seed, t0, known, kn)
    finally:
        shutil.rmtree(WORK, ignore_errors=True)


def explore(tier, seed, t0, known, kn):
    tb = time.time() - t0
    flav, nq, nt = R.PLAN['C24']
    cases = nq if tier == 'quick' else nt
    end = time.time() + (150 if tier == 'quick' else 600)
    n = R.DATASETS[tier]
    jobs = [(i, seed, flav[i % len(flav)], cases, end, kn, tier == 'thorough') for i in range(n)]
    stats, bad, ops, kinds = [], None, 0, {}
    samples = []
    with multiprocessing.Pool(R.NSHARD) as pool:
        for o in pool.imap_unordered(one, jobs):
            if o.get('skipped'):
                continue
            if o['rc']:
                bad = o
                break
            stats.append(o)
            for x in o['ops']:
                kinds[x[0]] = kinds.get(x[0], 0) + 1
            if len(samples) < 200 and o['stat']['samples']:
                samples.append('data: %s; %s' % (json.dumps(o['ops'][:6])[:400], random.Random(o['i']).choice(o['stat']['samples'])))
        pool.terminate()
    exe = os.path.join(R.build(['plain']), 'plain')
    hs = [os.path.join(WORK, f) for f in os.listdir(WORK) if f.startswith('hash')]
    merged = R.sh([exe, 'merge'] + hs, env=R.ENV).stdout.strip()
    labels = {'operation ' + k: v for k, v in kinds.items()}
    for o in stats:
        for k, v in o['stat']['labels'].items():
            labels[k] = labels.get(k, 0) + v
    fl = {}
    for o in stats:
        fl[o['fl']] = fl.get(o['fl'], 0) + 1
    rule = R.sh([exe, 'rule', 'C24'], env=R.ENV).stdout.strip()
    ev = {'property': 'C24', 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {
        'evaluations': sum(o['stat']['ran'] for o in stats), 'distinct_nontrivial': int(merged) if merged.isdigit() else 0, 'rule': rule,
        'samples': random.Random(seed).sample(samples, min(12, len(samples))) or ['(none completed)'], 'data_sets': len(stats), 'data_sets_planned': n,
        'library_calls': sum(o['stat']['calls'] for o in stats), 'labels': dict(sorted(labels.items())), 'data_sets_by_build': fl,
        'stopped_by_time_cap': len(stats) < n, 'build_s': round(tb, 1)},
        'assumptions': ['the vendored Unicode 15.0.0 data files, changed by datagen.py within the rules of a well-formed Unicode version (DESIGN.md), and the reference models in harness/ref_*.cpp',
                        'clang/gcc and the sanitizer runtimes'],
        'known_findings_met': {}, 'violations': 0}

    def done(rc):
        ev['wall_s'] = round(time.time() - t0, 2)
        os.makedirs(os.path.join(R.HERE, 'evidence'), exist_ok=True)
        p = os.path.join(R.HERE, 'evidence', 'C24.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(p + '.tmp', p)
        return rc

    if bad is None:
        c = ev['coverage']
        print('C24: held; %d data sets, %d cases, %d distinct non-trivial, %d library calls, %.1f s' % (len(stats), c['evaluations'], c['distinct_nontrivial'], c['library_calls'], time.time() - t0))
        return done(0)
    return report(bad, ev, done, kn)


def report(bad, ev, done, kn):
    d, fl, ops = bad['dir'], bad['fl'], bad['ops']
    case = None
    msg = bad['msg']
    if bad['rc'] != 20:
        case = os.path.join(WORK, 'case')
        shr = R.sh([d + '/exe', 'shrink', 'C24', d + '/cur', case, '--known', kn, '--seconds', '20'], env=env(d + '/tables'))
        if shr.returncode or not os.path.exists(case):
            print('run.py: a failure did not reproduce (data set %d, exit %s):\n%s' % (bad['i'], bad['rc'], msg), file=sys.stderr)
            if bad['rc'] in (2, -9):
                return 2
            case = None
        else:
            msg = shr.stdout
    # fewer operations, by halves, eight trials at a time
    end = time.time() + 90
    chunk = max(1, len(ops) // 2)
    if case is not None or bad['rc'] == 20:
        with multiprocessing.Pool(R.NSHARD) as pool:
            while time.time() < end:
                cand = [ops[:j] + ops[j + chunk:] for j in range(0, len(ops), chunk)]
                got = False
                for k in range(0, len(cand), R.NSHARD):
                    part = cand[k:k + R.NSHARD]
                    for c, f in zip(part, pool.map(fails, [(c, fl, case, kn, end) for c in part], 1)):
                        if f:
                            ops, got = c, True
                            break
                    if got or time.time() > end:
                        break
                if got:
                    chunk = max(1, min(chunk, len(ops) // 2))
                elif chunk == 1 or not ops:
                    break
                else:
                    chunk //= 2
    rep = os.path.join(R.HERE, 'evidence', 'replays', 'C24.case')
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    body = open(case, errors='replace').read() if case else 'property C24\n'
    with open(rep, 'w') as f:
        f.write('flavour %s\ndata %s\ncase %s\n' % (fl, json.dumps(ops), 'yes' if case else 'no') + body)
    ev['violations'] = 1
    ev['violation'] = {'replay': rep, 'message': ('data: %s\n' % json.dumps(ops))[:2000] + msg[:3000]}
    R.violation('C24', rep, 'with the vendored data files changed by %s\n%s' % (json.dumps(ops)[:1500], msg))
    return done(1)
