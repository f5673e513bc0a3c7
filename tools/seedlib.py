"""Confirms a planted bug in the scratch clone /tmp/wt and stores it in seeded/.

bug(id, property, needs, breaks, edits=[(file, old, new)...], demo=C++ text)"""
import json, os, re, shutil, subprocess, sys
WT = os.environ.get('WT', '/tmp/wt')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=c++14 -O1 -g %s-DFDUMP_DEFINE -DRTP_DEFINE -Iinclude -Isrc -I_build/src -I"$here" "$here/demo.cc" -o "$d/demo" _build/src/libh264nal.a || exit 2
cd "$d" && timeout 60 ./demo
'''


def sh(c, cwd=WT, **kw):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    r = sh('ninja -C _build')
    if r.returncode:
        print(r.stdout[-3000:])
    return r.returncode == 0


def tests():
    r = sh('python3 /opt/vp/run_gtests.py %s/_build > /tmp/wt.results; python3 /opt/vp/results.py /tmp/wt.json lines:/tmp/wt.results' % WT)
    got = set(json.load(open('/tmp/wt.json'))['passed'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'])
    return sorted(want - got)


def sync():
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e _build')


def bug(id, property, needs, breaks, edits, demo, san='', sh_demo=None, files={}):
    d = os.path.join(VERIF, 'seeded', id)
    print('==', id, property)
    sync()
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(VERIF, 'tools', 'bits.h'), d)
    if sh_demo:
        open(os.path.join(d, 'demo.sh'), 'w').write(sh_demo)
        if demo:
            open(os.path.join(d, 'demo.cc'), 'w').write(demo)
        else:
            os.unlink(os.path.join(d, 'bits.h'))
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (san + ' ' if san else ''))
        open(os.path.join(d, 'demo.cc'), 'w').write(demo)
    for k, v in files.items():
        open(os.path.join(d, k), 'wb').write(v)
    ok = build()
    r = sh('bash %s/demo.sh' % d)
    if r.returncode != 0:
        print('  DEMO FAILS ON UNCHANGED TREE', r.stdout[-1500:]); return False
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) != 1:
            print('  EDIT NOT UNIQUE', f, s.count(old)); sync(); return False
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff').stdout
    try:
        if not build():
            print('  DOES NOT BUILD'); return False
        t = tests()
        if t:
            print('  TESTS FAIL', t); return False
        r = sh('bash %s/demo.sh' % d)
        if r.returncode == 0:
            print('  DEMO DOES NOT FAIL', r.stdout[-500:]); return False
        print('  demo:', r.stdout.strip().split('\n')[-1][:150])
        rc = subprocess.run(['python3', VERIF + '/sa/checkall.py', property], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=WT))
    finally:
        sync()
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': property, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    hit = rc.returncode == 1 and 'BAD ' + property in rc.stdout
    print('  CHECK rc', rc.returncode, 'CAUGHT' if hit else 'MISSED')
    print('   ', '\n    '.join(l[:170] for l in rc.stdout.strip().split('\n')[:3]))
    return hit
