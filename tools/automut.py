#!/usr/bin/env python3
"""Development aid: random small mutations of the library; those that build and
pass the repository's tests are run through every check.
automut.py SEED COUNT OUT [file-substring]   (scratch clones under /tmp/am)"""
import os, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(os.environ.get('AM_WORKERS', '5'))
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
sub = sys.argv[4] if len(sys.argv) > 4 else ''
DUMP = os.environ.get('AM_DUMP')


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clone(i):
    d = '/tmp/am/w%d' % i
    if not os.path.isdir(d):
        sh('git clone -q /repo %s && cd %s && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O1 -g" -DBUILD_H264_TESTS=ON -DBUILD_CLANG_FUZZER=OFF && ninja -C _build' % (d, d))
    else:
        sh('cd %s && git fetch -q && git reset -q --hard origin/HEAD && ninja -C _build' % d)
    return d


def lines(path):
    """mutable (index, line): code outside comments, diagnostics and (unless asked) dumps"""
    ls = open(path).read().split('\n')
    r = []
    skip = None
    for i, l in enumerate(ls):
        s = l.strip()
        if s.startswith('#ifdef FPRINT_ERRORS') or (not DUMP and s.startswith('#ifdef FDUMP_DEFINE')):
            skip = True
        if s.startswith('#endif') or s.startswith('#else'):
            skip = None
            continue
        if skip or not s or s.startswith('//') or s.startswith('#') or s.startswith('*') or s.startswith('/*'):
            continue
        r.append(i)
    return ls, r


def mutate(rng, l, ls, i):
    c = l.split('//')[0]
    ops = []
    for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), ('++', '--'), ('true', 'false'), ('false', 'true'), ('if (!', 'if (')):
        for m in re.finditer(re.escape(a), c):
            ops.append((m.start(), m.end(), b))
    for m in re.finditer(r'(?<![\w.])\d+(?![\w.])', c):
        n = int(m.group())
        for k in (n + 1, max(0, n - 1)):
            if k != n:
                ops.append((m.start(), m.end(), str(k)))
    for m in re.finditer(r'\bl0\b|_l0_|_l1_|luma|chroma|top|bottom|left|right|width|height|Max\b|Min\b|_x\b|_y\b', c):
        sw = {'l0': 'l1', '_l0_': '_l1_', '_l1_': '_l0_', 'luma': 'chroma', 'chroma': 'luma', 'top': 'bottom', 'bottom': 'top', 'left': 'right', 'right': 'left', 'width': 'height', 'height': 'width', 'Max': 'Min', 'Min': 'Max', '_x': '_y', '_y': '_x'}[m.group()]
        ops.append((m.start(), m.end(), sw))
    # another member of the same structure
    for m in re.finditer(r'->(\w+)', c):
        others = sorted({x for k in range(max(0, i - 30), min(len(ls), i + 30)) for x in re.findall(r'->(\w+)', ls[k])} - {m.group(1)})
        if others:
            ops.append((m.start(1), m.end(1), rng.choice(others)))
    if re.match(r'\s*return nullptr;|\s*return false;|\s*break;|\s*continue;', c):
        ops.append((0, len(c), ''))
    if c.rstrip().endswith(';') and '=' in c and not re.match(r'\s*(auto|const|u?int|size_t|bool|std)', c) and ls[i - 1].rstrip().endswith((';', '{', '}')):
        ops.append((0, len(c), ''))
    if not ops:
        return None
    a, b, s = rng.choice(ops)
    return l[:a] + s + l[b:]


def main():
    with ThreadPoolExecutor(W) as ex:
        dirs = list(ex.map(clone, range(W)))
    rng = random.Random(seed)
    files = sorted(f for f in os.listdir('/repo/src') if f.endswith('.cc') and sub in f)
    jobs = []
    seen = set()
    pool = []
    for f in files:
        ls, ix = lines('/repo/src/' + f)
        pool += [(f, ls, i) for i in ix]
    while len(jobs) < count:
        f, ls, i = rng.choice(pool)
        n = mutate(rng, ls[i], ls, i)
        if n is None or n == ls[i] or (f, i, n) in seen:
            continue
        seen.add((f, i, n))
        jobs.append((f, i, ls[i], n))
    import queue
    q = queue.Queue()
    for d in dirs:
        q.put(d)

    def one(job):
        f, i, old, new = job
        d = q.get()
        try:
            sh('git -C %s checkout -q -- .' % d)
            p = '%s/src/%s' % (d, f)
            ls = open(p).read().split('\n')
            assert ls[i] == old
            ls[i] = new
            open(p, 'w').write('\n'.join(ls))
            r = sh('ninja -C %s/_build' % d)
            if r.returncode:
                return job, 'nobuild', ''
            r = sh('timeout 100 python3 /opt/vp/run_gtests.py %s/_build' % d)
            if r.returncode or re.search(r'(?m)^FAIL', r.stdout):
                return job, 'killed', ''
            r = sh('timeout 600 python3 %s/sa/checkall.py' % V, env=dict(os.environ, VERIF_REPO=d))
            ls = [l.strip()[:170] for l in r.stdout.split('\n') if l.strip()]
            if any(l.startswith('BAD') or l.startswith('VAC') for l in ls):
                return job, 'CAUGHT', [l for l in ls if l.startswith('BAD') or l.startswith('VAC')][0]
            if r.returncode:
                return job, 'ERROR', r.stderr[-200:]
            return job, 'MISS-und' if any(l.startswith('UND') for l in ls) else 'MISS', ls[0] if ls else ''
        finally:
            sh('git -C %s checkout -q -- .' % d)
            q.put(d)
    tally = {}
    with ThreadPoolExecutor(W) as ex, open(out, 'a') as o:
        for (f, i, old, new), r, note in ex.map(one, jobs):
            tally[r] = tally.get(r, 0) + 1
            if r not in ('nobuild', 'killed'):
                o.write('%s %s:%d\n   - %s\n   + %s\n     %s\n' % (r, f, i + 1, old.strip(), new.strip(), note))
                o.flush()
        o.write('%r\n' % tally)


main()
