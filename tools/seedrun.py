#!/usr/bin/env python3
"""Run each planted bug's own check (or all checks: ALL=1) against a scratch copy
of /repo with the patch applied.  Self-test only; no check uses this."""
import json, os, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.dirname(here)
ids = [os.path.basename(d) for d in sorted(glob.glob(top + '/seeded/*'))
       if len(sys.argv) == 1 or any(a in d for a in sys.argv[1:])]
def one(i):
    d = f'{top}/seeded/{i}'
    p = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {w}', shell=True, check=True)
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + w, d + '/patch.diff'], check=True, cwd='/')
        env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w + '/.evid', VERIF_TIER='quick')
        r = subprocess.run(['python3', top + '/run.py', p], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'UNDECIDED'))]
        return i, p, r.returncode, v, r.stdout[-300:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get('VERIF_PAR', '3'))) as ex:
    for i, p, rc, v, t in ex.map(one, ids):
        print(i, p, 'caught' if rc == 1 else 'MISSED rc=%d' % rc, flush=True)
        for l in v: print('    ', l[:200])
