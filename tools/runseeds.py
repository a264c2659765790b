#!/usr/bin/env python3
"""runseeds.py [ID...]: runs each planted bug's check on a patched copy of
/repo; prints whether it is caught."""
import json, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(sid):
    d = V + '/seeded/' + sid
    m = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='rs-', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/repo'], check=True)
        a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/repo')
        if a.returncode: return sid, m['property'], 'patch does not apply', ''
        shutil.copytree(V, w + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence'))
        r = subprocess.run([sys.executable, 'check.py', m['property']], cwd=w + '/verif', env=dict(os.environ, VERIF_REPO=w + '/repo'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        first = [l for l in r.stdout.splitlines() if not l.startswith('[')][:2]
        return sid, m['property'], {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'BROKEN %d' % r.returncode), ' | '.join(first)[:200] if r.returncode != 2 else r.stdout[-1500:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
ids = sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob(V + '/seeded/*'))
ids = [i for a in ids for i in sorted(os.path.basename(p) for p in glob.glob(V + '/seeded/' + a))]
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids): print(*r, flush=True)
