#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current tree from its LLVM IR and writes
/verif/evidence/<property>.json.  Exit 0: held on everything analysed; exit 1
with VIOLATION lines: a construct of the current source breaks it."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import interp        # noqa: E402
import ir            # noqa: E402
import props         # noqa: E402


def load_known():
    out = []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    # no verdict on what is left when the time is used up
    interp.Machine.DEADLINE = time.monotonic() + (500 if tier == 'quick' else 3000)
    prop = props.PROPS[pid]
    configs = [('default', ())]
    if tier == 'thorough':
        configs += props.THOROUGH_CONFIGS
    findings, cover, undecided, notes = [], {}, [], []
    for cname, extra in configs:
        prog = ir.load_program(extra=extra)
        ctx = props.Context(prog, cname, tier)
        for a in prop['analyses']:
            r = a(ctx)
            for f in r.findings:
                f.setdefault('config', cname)
                findings.append(f)
            undecided += ['[%s] %s' % (cname, u) for u in r.undecided]
            c = cover.setdefault(cname, {})
            for k, v in r.cover.items():
                if isinstance(v, (int, float)):
                    c[k] = c.get(k, 0) + v
                elif isinstance(v, dict):
                    c.setdefault(k, {}).update(v)
                else:
                    c.setdefault(k, [])
                    c[k] += [x for x in v if x not in c[k]]
            for m in r.vacuous:
                notes.append(m)
    if notes:
        # nothing to analyse: the check cannot decide
        for n in notes:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, n))
        return 2
    seen, uniq = set(), []
    for f in findings:
        k = (f['rule'], f['where'], f['key'])
        if k not in seen:
            seen.add(k)
            uniq.append(f)
    known = [k for k in load_known() if k['property'] == pid]
    bad = []
    for f in uniq:
        hit = [k for k in known if k['rule'] == f['rule'] and k['where'] == f['where'] and k['key'] == f['key']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['what']))
        else:
            bad.append(f)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = os.path.join(VERIF, 'evidence', pid + '.json')
    rep = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
    if os.path.exists(rep):
        os.unlink(rep)
    cov = {'explanation': prop['explain'], 'rules': prop['rules'], 'configurations': [c[0] for c in configs],
           'analysed': cover, 'undecided': undecided, 'known_findings': len(uniq) - len(bad)}
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
               'assumptions': props.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)},
              open(ev, 'w'), indent=1)
    if bad:
        with open(rep, 'w') as fh:
            for f in bad:
                fh.write('%s:%s: in %s: [%s] %s (structure %s, configuration %s)\n' % (f['file'], f['line'], f['fn'], f['rule'], f['msg'], f['where'], f['config']))
        for f in bad:
            print('%s:%s: in %s: [%s] %s' % (f['file'], f['line'], f['fn'], f['rule'], f['msg']))
            print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    n = cover['default'].get('functions', [])
    print('OK property=%s: %d functions analysed, %d undecided, %.1f s' % (pid, len(n) if isinstance(n, list) else n, len(undecided), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
