#!/usr/bin/env python3
"""Mechanical mutation of /repo's sources, to find what the checks miss.

  sens.py OUT.jsonl [--files a.c,b.c] [--max N] [--seed S]

Each mutant is one small edit of src/*.c.  It counts when it compiles to other
code, and the repository's own test programs pass.  The quick tier of the relevant checks is
then run on it (AddressSanitizer build); the result is caught (by which) or missed.
Works in /tmp/sens only; needs /repo built (bash /opt/vp/build.sh)."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..'))
import run as R
W = '/tmp/sens'
TREE = '/repo/_build/tree'
SRC = ['utf8', 'util', 'character', 'word', 'sentence', 'line', 'case', 'bidirectional']
REL = {
    'utf8': 'C01 C02 C09 C15', 'util': 'C09 C13 C15 C11 C16 C05 C06 C03 C14 C10', 'character': 'C04 C08 C22', 'word': 'C05 C16 C22', 'sentence': 'C06 C22',
    'line': 'C07 C22', 'case': 'C12 C16 C14 C13 C15', 'bidirectional': 'C17 C18 C20 C19 C22 C03',
}
SHARDS = int(os.environ.get('SHARDS', '8'))
ASAN = R.FLAVOURS['asan'][1].split()
OPS = [
    (r'==', ['!=']), (r'!=', ['==']), (r'<=', ['<', '==']), (r'>=', ['>', '==']), (r'(?<![<\-])<(?![<=])', ['<=', '!=']), (r'(?<![>\-])>(?![>=])', ['>=', '!=']),
    (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\+\+', ['--']), (r'--', ['++']),
    (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'\bMIN\b', ['MAX']), (r'\bMAX\b', ['MIN']), (r'%', ['/']), (r'!(?=[a-z(])', ['']),
    (r'(?<![\w.])\d+(?![\w.])', ['+1', '-1']), (r'UINT32_C\(0x[0-9A-F]+\)', ['+1', '-1']), (r'\bSIZE_MAX\b', ['0']), (r'\|=', ['=']), (r'\+=', ['-=', '=']),
    (r'\b(?:break|continue);', [';']),
]


def mutants(name, where='src'):
    p = '/repo/%s/%s.c' % (where, name)
    s = open(p).read()
    blank = lambda m: ''.join(c if c == '\n' else ' ' for c in m.group(0))
    code = re.sub(r'/\*.*?\*/', blank, s, flags=re.S)
    code = re.sub(r'^#.*$', blank, code, flags=re.M)
    code = re.sub(r'"(\\.|[^"\\])*"', blank, code)
    out = []
    for pat, reps in OPS:
        for m in re.finditer(pat, code):
            for r in reps:
                t = m.group(0) + ' ' + r[0] + ' ' + r[1] if r in ('+1', '-1') else r
                if r in ('+1', '-1'):
                    t = '(' + t + ')'
                out.append((m.start(), m.end(), t))
    # an enumerator replaced by another of the same kind
    en = sorted(set(re.findall(r'\b(?:[A-Z]+_PROP_\w+|BIDI_BRACKET_\w+|STATE_\w+|HERODOTUS_STATUS_\w+)\b', code)))
    rnd = random.Random(name)
    for m in re.finditer(r'\b(?:[A-Z]+_PROP_\w+|BIDI_BRACKET_\w+|STATE_\w+|HERODOTUS_STATUS_\w+)\b', code):
        same = [e for e in en if e != m.group(0) and e.split('_')[0] == m.group(0).split('_')[0] and e.split('_')[1] == m.group(0).split('_')[1]]
        for t in rnd.sample(same, min(2, len(same))):
            out.append((m.start(), m.end(), t))
    # a simple statement deleted
    for m in re.finditer(r'(?<=[;{}\n])\s*\n\t+((?:[a-z]\w*(?:->|\.|\[|\(| =|\+\+|--)|\(\*|\*)[^;{}]*;)', code):
        out.append((m.start(1), m.end(1), ';'))
    # terms of a condition dropped
    for m in re.finditer(r'(\|\||&&)\s*([a-zA-Z_!][\w.>\-\[\]]*(?:\([^()]*\))?\s*(?:[!=<>]=?\s*[\w.>\-]+(?:\([^()]*\))?)?)(?=\s*(?:\|\||&&|\)))', code):
        out.append((m.start(), m.end(), ''))
    out = sorted(set(out))
    return s, out


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def test_one(job):
    name, i, text = job
    d = '%s/w/%s-%d' % (W, name, i)
    os.makedirs(d + '/src')
    try:
        c = d + '/src/%s.c' % name
        open(c, 'w').write(text)
        for l in ('gen', 'grapheme.h'):
            os.symlink(W + '/tree/' + l, d + '/' + l)
        os.symlink(W + '/tree/src/util.h', d + '/src/util.h')
        cc = ['gcc', '-std=c99', '-Os', '-fPIC', '-D_DEFAULT_SOURCE', '-I' + d, '-c', c, '-o', d + '/m.o']
        if sh(cc).returncode:
            return 'nocompile'
        if open(d + '/m.o', 'rb').read() == open(W + '/obj/%s.o' % name, 'rb').read():
            return 'same'
        others = [W + '/obj/%s.o' % n for n in SRC if n != name]
        # the test programs are linked once, with a shared library that the mutant replaces
        if sh(['gcc', '-shared', '-Wl,-soname,libg.so', '-o', d + '/libg.so', d + '/m.o'] + others).returncode:
            return 'nolink'
        for t in sorted(glob.glob(W + '/tests/*')):
            b = os.path.basename(t)
            if b == 'bidirectional' and name in ('word', 'sentence', 'line', 'case', 'character'):
                continue
            try:
                r = sh([t], cwd=TREE, timeout=60, env=dict(os.environ, LD_LIBRARY_PATH=d))
                if r.returncode or any(a != b for a, b in re.findall(r'(\d+)/(\d+) \w+ tests passed', r.stdout.decode(errors='replace'))):
                    return 'killed by test/' + b
            except subprocess.TimeoutExpired:
                return 'killed by test/' + b
        return 'passes'
    finally:
        shutil.rmtree(d)


def check(name, i, text, plan, seconds):
    d = '%s/w/c-%s-%d' % (W, name, i)
    os.makedirs(d + '/src')
    running = []
    try:
        c = d + '/src/%s.c' % name
        open(c, 'w').write(text)
        for l in ('gen', 'grapheme.h'):
            os.symlink(W + '/tree/' + l, d + '/' + l)
        os.symlink(W + '/tree/src/util.h', d + '/src/util.h')
        if sh(['clang'] + ASAN + ['-w', '-I' + d, '-c', c, '-o', d + '/m.o']).returncode:
            return 'nocompile'
        objs = sorted(o for o in glob.glob(W + '/harn/*.o') if not o.endswith(('fuzz.o', 'count.o')))
        r = sh(['clang++', '-o', d + '/x'] + objs + [d + '/m.o'] + [W + '/aobj/%s.o' % n for n in SRC if n != name] + ['-lpthread', '-fsanitize=address,undefined'])
        if r.returncode:
            return 'nolink ' + r.stdout.decode()[-300:]
        for p, frac in plan:
            keys = ','.join(sorted(R.known_keys(p)))
            running = []
            for s in range(SHARDS):
                running.append(subprocess.Popen([d + '/x', 'run', p, '--seed', '1', '--shard', '%d/8' % s, '--cases', str(R.PLAN[p][1] // frac), '--seconds', str(seconds), '--known', keys,
                                                 '--current', d + '/cur%d' % s, '--out', d + '/o%d' % s, '--hashes', d + '/h%d' % s], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=R.ENV))
            bad = False
            while not bad and any(q.poll() is None for q in running):
                time.sleep(0.03)
                bad = any(q.poll() not in (None, 0) for q in running)
            bad = bad or any(q.poll() not in (None, 0) for q in running)
            for q in running:
                if q.poll() is None:
                    q.kill()
                q.wait()
            if bad:
                return 'caught by ' + p
        return 'missed'
    finally:
        for q in running:
            if q.poll() is None:
                q.kill()
        shutil.rmtree(d)


def main():
    out = sys.argv[1]
    opt = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    files = [f[:-2] for f in opt('--files', ','.join(f + '.c' for f in SRC)).split(',')]
    mx, seed, secs = int(opt('--max', '100000')), opt('--seed', '1'), int(opt('--seconds', '60'))
    shutil.rmtree(W, ignore_errors=True)
    for d in ('w', 'obj', 'aobj', 'tree/src'):
        os.makedirs('%s/%s' % (W, d))
    shutil.copy(TREE + '/grapheme.h', W + '/tree')
    shutil.copy('/repo/src/util.h', W + '/tree/src')
    shutil.copytree(TREE + '/gen', W + '/tree/gen', ignore=lambda d, fs: [f for f in fs if not f.endswith('.h') or f.endswith('-test.h')])
    shutil.copytree(R.build_harness(), W + '/harn')
    for n in SRC:
        shutil.copy('/repo/src/%s.c' % n, W + '/tree/src')
        # the same relative layout as for mutants, so that equal code gives equal objects
        sh(['gcc', '-std=c99', '-Os', '-fPIC', '-D_DEFAULT_SOURCE', '-I' + W + '/tree', '-c', W + '/tree/src/%s.c' % n, '-o', W + '/obj/%s.o' % n])
        sh(['clang'] + ASAN + ['-c', W + '/tree/src/%s.c' % n, '-o', W + '/aobj/%s.o' % n])
    os.makedirs(W + '/tests')
    sh(['gcc', '-shared', '-Wl,-soname,libg.so', '-o', W + '/libg.so'] + [W + '/obj/%s.o' % n for n in SRC])
    for t in glob.glob(TREE + '/test/*.o'):
        b = os.path.basename(t)[:-2]
        if b != 'util':
            assert not sh(['gcc', '-o', W + '/tests/' + b, t, TREE + '/test/util.o', W + '/libg.so']).returncode, b
    jobs = []
    for f in files:
        s, ms = mutants(f)
        random.Random(seed).shuffle(ms)
        for i, (a, b, t) in enumerate(ms[:mx]):
            jobs.append((f, i, s[:a] + t + s[b:], s.count('\n', 0, a) + 1, s[a:b], t))
    print(len(jobs), 'mutants', flush=True)
    stat = {}
    t0 = time.time()
    with open(out, 'a') as o, cf.ThreadPoolExecutor(8) as ex:
        alive = json.load(open(opt('--alive', ''))) if '--alive' in sys.argv else []
        for j, r in [] if alive else zip(jobs, ex.map(lambda j: test_one(j[:3]), jobs)):
            k = r.split()[0]
            stat[k] = stat.get(k, 0) + 1
            if r == 'passes':
                alive.append(j)
        json.dump(alive, open(out + '.alive', 'w'))  # for --alive
        print(stat, '%.0f s' % (time.time() - t0), flush=True)
        for n, j in enumerate(alive):
            ps = REL[j[0]].split()
            r = check(j[0], j[1], j[2], [(p, 20) for p in ps] + [(p, 4) for p in ps], secs)
            o.write(json.dumps(dict(file=j[0], line=j[3], old=j[4], new=j[5], result=r)) + '\n')
            o.flush()
            stat[r] = stat.get(r, 0) + 1
            if n % 25 == 0 or r == 'missed':
                print(n, len(alive), '%.0f s' % (time.time() - t0), j[0], j[3], repr(j[4]), '->', repr(j[5]), r, flush=True)
    print(stat)


if __name__ == '__main__':
    main()
