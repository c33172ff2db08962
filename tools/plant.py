#!/usr/bin/env python3
"""Confirms the planted bugs described in tools/bugs.py and writes them to seeded/.

  plant.py [ID...]            every confirmed bug becomes seeded/ID/
A bug is kept when it applies to /repo's HEAD, only removes lines of the
original repository, builds, passes the repository's test programs, and its
demo exits 0 without and nonzero with it."""
import concurrent.futures as cf
import difflib, glob, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), 'seeded')
sys.path.insert(0, HERE)
BASE = '4e9bd95'
TREE = '/repo/_build/tree'
PRE = r'''#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "grapheme.h"
#define LEN(x) (sizeof(x) / sizeof(*(x)))
static int bad;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "demo.c:%d: not %s\n", __LINE__, #c); bad = 1; } } while (0)
typedef uint_least32_t cp;
/* a copy that ends where readable memory ends */
static inline void *guarded(const void *p, size_t n)
{
	size_t len = (n / 4096 + 1) * 4096;
	char *m = mmap(NULL, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED || mprotect(m + len, 4096, PROT_NONE)) exit(99);
	if (n) memcpy(m + len - n, p, n);
	return m + len - n;
}
/* lengths of the segments, "2,1" */
static inline bool seg(size_t (*f)(const cp *, size_t), const cp *s, size_t n, const char *want)
{
	char buf[4096] = "", one[32];
	size_t r;
	while (n > 0 && strlen(buf) < 4000) {
		if ((r = f(s, n)) == 0 || r > n) { strcat(buf, "!"); break; }
		sprintf(one, "%s%zu", *buf ? "," : "", r);
		strcat(buf, one);
		s += r; n -= r;
	}
	if (strcmp(buf, want)) fprintf(stderr, "got %s, want %s\n", buf, want);
	return !strcmp(buf, want);
}
/* embedding levels of a paragraph in one line, "0,1,-1" */
static inline bool levels(const cp *s, size_t n, int dir, const char *want)
{
	static cp st[100000]; static signed char lev[100000];
	char buf[4096] = "", one[32];
	enum grapheme_bidirectional_direction res;
	grapheme_bidirectional_preprocess_paragraph(s, n, (enum grapheme_bidirectional_direction)dir, st, n, &res);
	grapheme_bidirectional_get_line_embedding_levels(st, n, (int_least8_t *)lev, n);
	for (size_t i = 0; i < n && strlen(buf) < 4000; i++) {
		sprintf(one, "%s%d", i ? "," : "", lev[i]);
		strcat(buf, one);
	}
	if (strcmp(buf, want)) fprintf(stderr, "got %s, want %s\n", buf, want);
	return !strcmp(buf, want);
}
'''
SH = '''#!/bin/sh
# run in /repo after the build: 0 when the property holds for this input
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
cc -std=c99 -D_GNU_SOURCE -O1 -w -I. -I"$T" -o "$T/demo" "$(dirname "$0")/demo.c" _build/tree/libgrapheme.a %s || exit 99
timeout 120 "$T/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def git(*a):
    return subprocess.run(['git', '-C', '/repo'] + list(a), stdout=subprocess.PIPE, text=True, check=True).stdout


def one(b):
    pid = b['id']
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        patch, genchange = '', False
        new = {}
        for f, old, rep in b['edits']:
            s = new.get(f) or git('show', 'HEAD:' + f)
            n = s.count(old)
            if n != 1:
                return pid, 'edit matches %d times in %s: %r' % (n, f, old[:60])
            new[f] = s.replace(old, rep)
            genchange |= not f.startswith('src/')
        removed_any = force = False
        for f, t in sorted(new.items()):
            s, base = git('show', 'HEAD:' + f), git('show', BASE + ':' + f).split('\n')
            for l in difflib.unified_diff(s.split('\n'), t.split('\n'), lineterm='', n=0):
                if l.startswith('-') and not l.startswith('---') and l[1:].strip():
                    if l[1:] not in base:
                        if not os.environ.get('FORCE'):
                            return pid, 'changes a line that is not of the original: ' + l
                        force = True
                    removed_any = True
            patch += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(
                s.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f, n=3))
        removed_any &= not force
        dest = SEED if removed_any else '/tmp/extra'  # only to see if it is caught
        w = d + '/repo'
        os.makedirs(w)
        if genchange:
            shutil.copytree(TREE, w + '/_build/tree', symlinks=True)
        else:
            shutil.copytree(TREE, w + '/_build/tree', symlinks=True, ignore=lambda p, ns: [n for n in ns if n == 'data' and p == TREE])
            os.symlink(TREE + '/data', w + '/_build/tree/data')
        t = w + '/_build/tree'
        for f, s in new.items():
            open(t + '/' + f, 'w').write(s)
        shutil.copy(t + '/grapheme.h', w + '/grapheme.h')
        os.makedirs(w + '/gen')
        shutil.copy(t + '/gen/types.h', w + '/gen/types.h')
        env = dict(os.environ)
        # only the library and, for a generator change, its headers
        if genchange:
            r = sh(['make', '-j8', 'libgrapheme.a'] + ['test/' + x for x in ('character', 'word', 'sentence', 'line', 'case', 'utf8-decode', 'utf8-encode', 'bidirectional')], cwd=t)
        else:
            os.utime(t + '/libgrapheme.a', (0, 0))
            for f in new:
                if f.endswith('.c'):
                    r = sh(['gcc', '-std=c99', '-Os', '-fPIC', '-D_DEFAULT_SOURCE', '-Wall', '-Wextra', '-c', f, '-o', f[:-2] + '.o'], cwd=t)
                    if r.returncode:
                        return pid, 'does not compile: ' + r.stdout[-600:]
                else:
                    for g in glob.glob(t + '/src/*.c'):
                        r = sh(['gcc', '-std=c99', '-Os', '-fPIC', '-D_DEFAULT_SOURCE', '-c', g, '-o', g[:-2] + '.o'], cwd=t)
            os.remove(t + '/libgrapheme.a')
            r = sh('ar rcs libgrapheme.a src/*.o', shell=True, cwd=t)
        if r.returncode:
            return pid, 'does not build: ' + r.stdout[-600:]
        for x in sorted(glob.glob(t + '/test/*.o')):
            n = os.path.basename(x)[:-2]
            if n == 'util':
                continue
            r = sh(['gcc', '-o', d + '/t', x, t + '/test/util.o', t + '/libgrapheme.a'])
            if r.returncode:
                return pid, 'test does not link: ' + r.stdout[-300:]
            try:
                r = sh([d + '/t'], cwd=t, timeout=200)
            except subprocess.TimeoutExpired:
                return pid, 'test/%s hangs' % n
            if r.returncode or any(a != b for a, b in re.findall(r'(\d+)/(\d+) \w+ tests passed', r.stdout)):
                return pid, 'killed by test/%s: %s' % (n, r.stdout.strip()[-200:])
        q = d + '/seed'
        os.makedirs(q)
        open(q + '/demo.c', 'w').write(PRE + b['demo'])
        open(q + '/demo.sh', 'w').write(b.get('sh') or SH % b.get('link', ''))
        os.chmod(q + '/demo.sh', 0o755)
        open(q + '/patch.diff', 'w').write(patch)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(q + '/meta.json', 'w'), indent=1)
        r = sh(['git', '-C', '/repo', 'apply', '--check', q + '/patch.diff'])
        if r.returncode:
            return pid, 'does not apply: ' + r.stdout
        r = sh(['sh', q + '/demo.sh'], cwd='/repo')
        if r.returncode:
            return pid, 'demo fails on the unchanged tree: %d %s' % (r.returncode, r.stdout[-500:])
        r = sh(['sh', q + '/demo.sh'], cwd=w)
        if r.returncode in (0, 99):
            return pid, 'demo gives %d with the bug %s' % (r.returncode, r.stdout[-300:])
        shutil.rmtree(os.path.join(dest, pid), ignore_errors=True)
        shutil.copytree(q, os.path.join(dest, pid))
        return pid, '%s (%d) %s' % ('KEPT' if removed_any else 'extra', r.returncode, r.stdout.strip().replace('\n', ' | ')[:110])
    finally:
        shutil.rmtree(d)


def main():
    from bugs6 import BUGS
    want = sys.argv[1:]
    os.makedirs(SEED, exist_ok=True)
    os.makedirs('/tmp/extra', exist_ok=True)
    ids = [b['id'] for b in BUGS]
    assert len(ids) == len(set(ids))
    todo = [b for b in BUGS if not want or b['id'] in want]
    with cf.ThreadPoolExecutor(5) as ex:
        for r in ex.map(one, todo):
            print('%-22s %s' % r, flush=True)


main()
