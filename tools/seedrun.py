#!/usr/bin/env python3
"""Runs the quick checks on the planted bugs: seedrun.py [--all] [ID...]

By default only the check of the bug's own property; --all: every check.
Works on a scratch copy of /repo, removed afterwards."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.environ.get('SEEDED', V + '/seeded')
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ALL = '--all' in sys.argv
PROPS = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for i in sorted(args or os.listdir(SEED)):
    meta = json.load(open('%s/%s/meta.json' % (SEED, i)))
    d = tempfile.mkdtemp(prefix='seedrun-', dir='/tmp')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git apply %s/%s/patch.diff' % (d, d, SEED, i), shell=True, check=True)
        res = []
        for p in (PROPS if ALL else [meta['property']]):
            t = time.time()
            r = subprocess.run([sys.executable, V + '/run.py', p], env=dict(os.environ, VP_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            st = 'caught' if r.returncode == 1 and v else 'quiet' if r.returncode == 0 else 'ERROR %d %s' % (r.returncode, r.stdout[-300:])
            if st != 'quiet' or not ALL:
                res.append('%s %s (%.0f s)' % (p, st, time.time() - t))
        print('%-22s own %s: %s' % (i, meta['property'], ', '.join(res)), flush=True)
    finally:
        shutil.rmtree(d)
