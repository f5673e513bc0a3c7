#!/usr/bin/env python3
"""Development aid: every property on one load of the program."""
import sys, json, os
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, props, check
prog = ir.load_program()
ctx = props.Context(prog, 'default', 'quick')
known = check.load_known()
bad = und = 0
useen = set()
only = sys.argv[1:]
for pid, p in props.PROPS.items():
    if only and pid not in only:
        continue
    seen = set()
    for a in p['analyses']:
        r = a(ctx)
        for f in r.findings:
            k = (f['rule'], f['where'], f['key'])
            if k in seen or any(x['property'] == pid and (x['rule'], x['where'], x['key']) == k for x in known):
                continue
            seen.add(k)
            bad += 1
            print('  BAD', pid, '%s:%s [%s] %s' % (f['file'], f['line'], f['rule'], f['msg'][:150]))
        for u in r.undecided:
            if u not in useen:
                useen.add(u)
                und += 1
                print('  UND', pid, u[:250])
        for u in r.vacuous:
            print('  VACUOUS', pid, u)
            bad += 1
print('bad', bad, 'undecided', und)
sys.exit(1 if bad else 0)
