#!/usr/bin/env python3
"""Development aid: all behaviour-preserving edits of refactors2.py, 7 at a time, without building.
refpar.py [PID...]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import refactors2
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(t):
    name, edits = t
    d = tempfile.mkdtemp(prefix='ref')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
        ch = False
        for f, fn in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            try:
                n = fn(s)
            except Exception as e:
                return name, 'EDIT FAILED'
            ch |= n != s
            open(p, 'w').write(n)
        if not ch:
            return name, 'NO CHANGE'
        r = subprocess.run(['python3', V + '/sa/checkall.py'] + sys.argv[1:], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
        return name, r.stdout.strip()[-600:] + r.stderr[-200:]
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(7) as ex:
    for n, r in ex.map(one, refactors2.R):
        if r != 'bad 0 undecided 0':
            print(n, r, flush=True)
print('edits', len(refactors2.R))
