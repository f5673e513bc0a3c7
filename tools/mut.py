#!/usr/bin/env python3
"""Development aid: string mutations in scratch copies, 7 at a time.
mut.py FILE.py PID[,PID] [idx...]; FILE defines M = [(file, old, new[, 'eq'])] ('eq': behaviour-preserving)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
M = g['M']
pids = sys.argv[2].split(',')
sel = [int(x) for x in sys.argv[3:]] or range(len(M))


def one(k):
    t = M[k]
    f, a, b = t[:3]
    eq = len(t) > 3
    d = tempfile.mkdtemp(prefix='mut')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
        p = os.path.join(d, f)
        s = open(p).read()
        edits = [(a, b)] if isinstance(a, str) else list(zip(a, b))
        for x, y in edits:
            if x not in s:
                return k, 'NOMATCH %r' % x[:50]
            s = s.replace(x, y, 1)
        open(p, 'w').write(s)
        r = subprocess.run(['python3', V + '/sa/checkall.py'] + pids, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
        ls = [l[:190] for l in r.stdout.split('\n') if l.strip()]
        bad = any('BAD' in l for l in ls)
        und = any('UND' in l for l in ls)
        tag = ('FALSE-ALARM' if bad else 'und' if und else 'quiet') if eq else ('CAUGHT' if bad else 'und-MISS' if und else 'MISS')
        return k, '%-10s %s %r\n      %s %s' % (tag, f.split('/')[-1], edits[0][1][:60], (ls + ['?'])[0], r.stderr[-300:])
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(7) as ex:
    for k, r in ex.map(one, sel):
        print(k, r, flush=True)
