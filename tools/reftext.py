#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrites applied everywhere in src/ at once.
reftext.py [--test] [NAME...] [PID...]"""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def close(s, i, o='(', c=')'):
    d = 0
    while True:
        if s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1


N = [0]


def fresh(p):
    N[0] += 1
    return '%s_%d' % (p, N[0])


def each_if(s, f):
    """f(cond, is_else) -> (prefix statement, new cond) or None"""
    out, i = '', 0
    for m in re.finditer(r'(?<![\w#])if \(', s):
        a = m.end() - 1
        if a < i:
            continue
        b = close(s, a)
        before = s[:m.start()].rstrip()
        is_else = before.endswith('else')
        # only where an if stands as a statement of its own
        if is_else or before[-1] not in '{};/' and not re.search(r'(//[^\n]*|#endif[^\n]*|:)$', before):
            continue
        r = f(s[a + 1:b])
        if r is None:
            continue
        out += s[i:m.start()] + r[0] + 'if (' + r[1] + ')'
        i = b + 1
    return out + s[i:]


def t_ok(s):
    def f(c):
        if c.startswith('!bit_buffer->Read') and '||' not in c and '&&' not in c:
            n = fresh('read_ok')
            return 'const bool %s = %s;\n' % (n, c[1:]), '!' + n
    return each_if(s, f)


def t_named(s):
    def f(c):
        if 'bit_buffer->' in c or '=' in re.sub(r'[=!<>]=', '', c):
            return None
        n = fresh('cond')
        return 'const bool %s = (%s);\n' % (n, c), n
    return each_if(s, f)


def t_neg(s):
    def f(c):
        return '', '!(!(%s))' % c
    return each_if(s, f)


def t_eq(s):
    return re.sub(r'if \(([\w>\-.]+) == ([\w:]+)\) \{', r'if (!(\1 != \2)) {', s)


def t_flip(s):
    s = re.sub(r'([\w>\-.]+) < (k[A-Z]\w+)', r'\2 > \1', s)
    return re.sub(r'([\w>\-.]+) >\s+(k[A-Z]\w+)', r'\2 < \1', s)


def t_inc(s):
    return re.sub(r'(?:\+\+(\w+)|(\w+)\+\+)\)', lambda m: '%s += 1)' % (m.group(1) or m.group(2)), s)


def t_emplace(s):
    return s.replace('.push_back(', '.emplace_back(') if 'NaluIndex' not in s else s


def t_while(s):
    i = 0
    while True:
        m = re.compile(r'(?<!\w)for \(').search(s, i)
        if not m:
            return s
        a = m.end() - 1
        b = close(s, a)
        h = s[a + 1:b]
        p = h.split(';')
        i = b
        if len(p) != 3 or not p[2].strip() or not s[b + 1:].lstrip().startswith('{'):
            continue
        x = s.index('{', b)
        y = close(s, x, '{', '}')
        body = s[x + 1:y]
        if re.search(r'\bcontinue\b', body):
            continue
        s = s[:m.start()] + '{\n%s;\nwhile (%s) {%s\n%s;\n}\n}' % (p[0], p[1].strip(), body, p[2].strip()) + s[y + 1:]
        i = m.start() + len(p[0]) + 5


def t_swap(s):
    """if (c) {A} else {B} -> if (!(c)) {B} else {A}"""
    i = 0
    while True:
        m = re.compile(r'(?<![\w#])if \(').search(s, i)
        if not m:
            return s
        i = m.end()
        a = m.end() - 1
        b = close(s, a)
        if s[:m.start()].rstrip().endswith('else') or not s[b + 1:].lstrip().startswith('{'):
            continue
        x = s.index('{', b)
        y = close(s, x, '{', '}')
        e = re.match(r'\s*else \{', s[y + 1:])
        if not e:
            continue
        x2 = y + 1 + e.end() - 1
        y2 = close(s, x2, '{', '}')
        if '#' in s[x:y2]:
            continue
        s = s[:m.start()] + 'if (!(%s)) %s else %s' % (s[a + 1:b], s[x2:y2 + 1], s[x:y + 1]) + s[y2 + 1:]


def t_nest(s):
    """if (A && B) {X} without else -> if (A) { if (B) {X} }"""
    i = 0
    while True:
        m = re.compile(r'(?<![\w#])if \(').search(s, i)
        if not m:
            return s
        i = m.end()
        a = m.end() - 1
        b = close(s, a)
        c = s[a + 1:b]
        if s[:m.start()].rstrip().endswith('else') or not s[b + 1:].lstrip().startswith('{') or '||' in c:
            continue
        d, at = 0, None
        for k, ch in enumerate(c):
            d += ch == '('
            d -= ch == ')'
            if d == 0 and c[k:k + 2] == '&&' and at is None:
                at = k
        if at is None:
            continue
        x = s.index('{', b)
        y = close(s, x, '{', '}')
        if re.match(r'\s*else', s[y + 1:]):
            continue
        s = s[:m.start()] + 'if (%s) {\nif (%s) %s\n}' % (c[:at].strip(), c[at + 2:].strip(), s[x:y + 1]) + s[y + 1:]


def t_or(s):
    """if (A || B) { return X; } -> two ifs"""
    i = 0
    while True:
        m = re.compile(r'(?<![\w#])if \(').search(s, i)
        if not m:
            return s
        i = m.end()
        a = m.end() - 1
        b = close(s, a)
        c = s[a + 1:b]
        if s[:m.start()].rstrip().endswith('else') or not s[b + 1:].lstrip().startswith('{') or '&&' in c:
            continue
        d, at = 0, None
        for k, ch in enumerate(c):
            d += ch == '('
            d -= ch == ')'
            if d == 0 and c[k:k + 2] == '||' and at is None:
                at = k
        if at is None:
            continue
        x = s.index('{', b)
        y = close(s, x, '{', '}')
        blk = s[x:y + 1]
        if re.match(r'\s*else', s[y + 1:]) or not re.search(r'return [^;]*;\s*\}$', blk):
            continue
        s = s[:m.start()] + 'if (%s) %s\nif (%s) %s' % (c[:at].strip(), blk, c[at + 2:].strip(), blk) + s[y + 1:]


def t_index(s):
    """range-for over a member list by index"""
    def f(m):
        n = fresh('k')
        return 'for (size_t %s = 0; %s < %s.size(); ++%s) {\nconst %s& %s = %s[%s];' % (n, n, m.group(3), n, m.group(1), m.group(2), m.group(3), n)
    return re.sub(r'for \(const (u?int32_t)& (\w+) : (\w+)\) \{', f, s)


def t_local(s):
    """values go through a local before they are stored"""
    def f(m):
        n = fresh('value')
        return '%sconst auto %s = %s;\n%s%s.push_back(%s);' % (m.group(1), n, m.group(3), m.group(1), m.group(2), n)
    return re.sub(r'(\n\s+)([\w>\-]+(?:->|\.)?\w+)\.push_back\(\s*(\w+_tmp)\);', f, s)


T = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_')}


def one(name):
    d = tempfile.mkdtemp(prefix='rt')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
        ch = 0
        for f in sorted(glob.glob(d + '/src/*.cc')):
            s = open(f).read()
            n = T[name](s)
            ch += n != s
            open(f, 'w').write(n)
        msg = '%d files; ' % ch
        if '--test' in sys.argv:
            r = subprocess.run('cd %s && cmake -S . -B _build -G Ninja -DCMAKE_CXX_FLAGS="-O0" -DBUILD_H264_TESTS=ON -DBUILD_CLANG_FUZZER=OFF >/dev/null && ninja -C _build 2>&1 | tail -15 && cd _build && ctest -j4 2>&1 | tail -4' % d, shell=True, capture_output=True, text=True)
            msg += r.stdout[-700:] + '\n'
        r = subprocess.run(['python3', V + '/sa/checkall.py'] + pids, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
        return name, msg + r.stdout.strip()[-1800:] + r.stderr[-400:]
    finally:
        shutil.rmtree(d)


pids = [a for a in sys.argv[1:] if re.match(r'C\d\d$', a)]
names = [a for a in sys.argv[1:] if a in T] or list(T)
with ThreadPoolExecutor(6) as ex:
    for n, r in ex.map(one, names):
        print('%-8s %s' % (n, r), flush=True)
