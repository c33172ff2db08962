#!/usr/bin/env python3
"""Mechanical mutation of /repo's generators (gen/*.c), to find what C24 misses.

  sensgen.py OUT.jsonl [--files util.c,line.c] [--max N] [--seed S] [--probe]

A mutant counts when it compiles to other code and the headers it generates from the
vendored data are those of the unchanged generators (so no test sees it).  C24's quick tier is
run on it.  --probe: only counts the mutants."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, time
import sens
W = '/tmp/sensgen'
GEN = ['bidirectional', 'case', 'character', 'line', 'sentence', 'word']
CC = ['cc', '-std=c99', '-O1', '-D_DEFAULT_SOURCE']


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def build(d, name):
    """objects of d/gen/name.c; the generators that use it"""
    return sh(CC + ['-I' + d, '-c', '%s/gen/%s.c' % (d, name), '-o', '%s/gen/%s.o' % (d, name)]).returncode == 0


def headers(d, utilo, objs, which):
    out = {}
    for g in which:
        if sh(CC + ['-o', d + '/g-' + g, objs(g), utilo]).returncode:
            return None
        try:
            r = subprocess.run(['gen/' + g], executable=d + '/g-' + g, cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        if r.returncode:
            return None
        out[g] = r.stdout
    return out


def probe(job):
    name, i, text, ref = job
    d = '%s/p-%s-%d' % (W, name, i)
    os.makedirs(d + '/gen')
    try:
        open('%s/gen/%s.c' % (d, name), 'w').write(text)
        for h in ('util.h', 'types.h'):
            if os.path.exists('/repo/gen/' + h):
                os.symlink('/repo/gen/' + h, d + '/gen/' + h)
        if not build(d, name):
            return 'nocompile'
        if open('%s/gen/%s.o' % (d, name), 'rb').read() == open('%s/ref/gen/%s.o' % (W, name), 'rb').read():
            return 'same'
        mine = '%s/gen/%s.o' % (d, name)
        if name == 'util':
            h = {}
            for g in GEN:
                x = headers(d, mine, lambda g: '%s/ref/gen/%s.o' % (W, g), [g])
                if x is None or x[g] != ref[g]:
                    return 'visible'
        else:
            x = headers(d, W + '/ref/gen/util.o', lambda g: mine, [name])
            if x is None or x[name] != ref[name]:
                return 'visible'
        return 'silent'
    finally:
        shutil.rmtree(d)


def main():
    out = sys.argv[1]
    opt = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    files = [f[:-2] for f in opt('--files', ','.join(f + '.c' for f in ['util'] + GEN)).split(',')]
    mx, seed = int(opt('--max', '100000')), opt('--seed', '1')
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + '/ref/gen')
    for n in GEN + ['util']:
        shutil.copy('/repo/gen/%s.c' % n, W + '/ref/gen')
    [shutil.copy('/repo/gen/' + h, W + '/ref/gen') for h in ('util.h', 'types.h')]
    for n in GEN + ['util']:
        assert build(W + '/ref', n), n
    ref = headers(W + '/ref', W + '/ref/gen/util.o', lambda g: '%s/ref/gen/%s.o' % (W, g), GEN)
    assert ref
    jobs = []
    for f in files:
        s, ms = sens.mutants(f, 'gen')
        random.Random(seed).shuffle(ms)
        for i, (a, b, t) in enumerate(ms[:mx]):
            jobs.append((f, i, s[:a] + t + s[b:], s.count('\n', 0, a) + 1, s[a:b], t))
    print(len(jobs), 'mutants', flush=True)
    stat, alive, t0 = {}, [], time.time()
    with cf.ThreadPoolExecutor(int(opt('--jobs', '8'))) as ex:
        for j, r in zip(jobs, ex.map(lambda j: probe(j[:3] + (ref,)), jobs)):
            stat[r] = stat.get(r, 0) + 1
            if r == 'silent':
                alive.append(j)
    print(stat, '%.0f s' % (time.time() - t0), flush=True)
    alive = [j for j in alive if not re.match(r'(fprintf|free|exit)\(', j[4]) and not re.search(r"(exit\(|return )\(\d", j[2].split("\n")[j[3] - 1]) and
             not (j[0] == 'util' and j[3] > 711)]
    if '--lines' in sys.argv:
        alive = [j for j in alive if '%s:%d' % (j[0], j[3]) in opt('--lines', '').split(',')]
    alive = alive[int(opt('--from', '0')):]
    for j in alive:
        print('silent', j[0], j[3], repr(j[4]), '->', repr(j[5]))
    if '--probe' in sys.argv:
        return
    tree = W + '/repo'
    sh(['git', 'clone', '-q', '/repo', tree])
    with open(out, 'a') as o:
        for n, j in enumerate(alive):
            p = '%s/gen/%s.c' % (tree, j[0])
            keep = open(p).read()
            open(p, 'w').write(j[2])
            r = sh([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); import run; run.DATASETS["quick"] = 32; sys.argv = ["run.py", "C24"]; run.main()' % os.path.join(sens.HERE, '..')], env=dict(os.environ, VP_REPO=tree, VERIF_SEED='1', VERIF_TIER='quick'))
            open(p, 'w').write(keep)
            res = {0: 'missed', 1: 'caught'}.get(r.returncode, 'exit %d' % r.returncode)
            o.write(json.dumps(dict(file=j[0], line=j[3], old=j[4], new=j[5], result=res)) + '\n')
            o.flush()
            stat[res] = stat.get(res, 0) + 1
            print(n, len(alive), '%.0f s' % (time.time() - t0), j[0], j[3], repr(j[4]), '->', repr(j[5]), res, flush=True)
    print(stat)


if __name__ == '__main__':
    main()
