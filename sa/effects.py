"""What the library may touch: no result depends on anything but the arguments,
and nothing the caller passed as constant is changed.

Three rules over the LLVM IR of every function of the library (src/*.cc):
STATE   no mutable variable of static storage, except atomic counters that no
        function of the library reads back;
OUTSIDE no call that brings in anything but the arguments (clock, random
        numbers, environment, files), or that ends the process, in a function
        reachable from a parser or a dump;
CONST   no write through a pointer to const (input buffer, constant structure,
        constant object), and no such pointer handed on as a pointer to
        non-const.
(Writes to parameter sets, which are not const, are an obligation of the
lock-step analysis: EFFECT in spec.py.)"""
import re

import ir
import models as M
from contract import Checks, main

N = 'h264nal::'

OUTSIDE = re.compile(r'''^(
 s?rand(om|_r|om_r|48)?|[delmn]rand48|arc4random.*|getrandom|getentropy|
 time|clock|clock_gettime|gettimeofday|times|localtime(_r)?|gmtime(_r)?|ftime|
 getenv|secure_getenv|setenv|putenv|setlocale|
 getpid|gettid|pthread_self|gethostname|uname|getcwd|
 strtok|
 f?open|fopen64|open64|openat|creat|fdopen|freopen|popen|remove|unlink|rename|mkdir|rmdir|tmpfile|mkstemp|
 scanf|fscanf|getc|getchar|fgetc|fgets|fread|read|
 system|exec[lv]p?e?|fork|kill|raise|exit|_exit|_Exit|quick_exit|atexit|signal|sleep|usleep|nanosleep|
 std::random_device::.*|std::chrono::.*::now|std::this_thread::.*|std::thread::.*|std::getenv|
 std::basic_[io]?f?stream::.*|std::basic_filebuf::.*|std::filesystem::.*
)$''', re.X)
WRITERS = re.compile(r'^(llvm\.mem(cpy|move|set)\..*|memcpy|memmove|memset|strn?cpy|strn?cat|v?sn?printf|fread|bzero|bcopy|std::memcpy)$')
RMW = ('atomicrmw', 'cmpxchg')


def refs(x, out):
    """globals an operand mentions"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str):
            out.add(x[1])
        else:
            for y in x:
                refs(y, out)


def ours(file):
    return file.startswith(('src/', 'include/', './'))


class Rule:
    """obligations of one rule; the same shape as a contract observer"""

    def __init__(self, name):
        self.name = name
        self.violations, self.undecided = [], []
        self.stats = {}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, key, msg, file, line, fn):
        self.violations.append({'cat': self.name, 'key': key, 'msg': msg, 'file': file, 'line': line, 'fn': fn, 'imprecise': 0, 'tags': {}})


class Effects(Checks):
    def __init__(self, prog):
        super().__init__(prog)
        self.mods = [m for m in prog.modules if m.src.startswith('src/')]
        self.fns = []
        self.files, self.lines = {}, {}
        self.args = {}
        for m in self.mods:
            self.args[m] = self.locals_of(m)
            for n, f in m.functions.items():
                f.parse()
                self.files[f], self.lines[f] = self.where(f)
                if ours(self.files[f]):
                    self.fns.append(f)

    def where(self, f):
        if f.sp is None:
            return '', 0
        d = ir.parse_md(f.mod.meta.get(f.sp, ''))
        n = ir.parse_md(f.mod.meta.get(d.get('file'), '')).get('filename') or ''
        return (n[len(ir.REPO) + 1:] if n.startswith(ir.REPO + '/') else n), int(d.get('line') or 0)

    def locals_of(self, m):
        out = {}
        for s in m.meta.values():
            if s.startswith('!DILocalVariable(') and 'arg:' in s:
                d = ir.parse_md(s)
                if isinstance(d.get('scope'), int) and d.get('name') or 'DIFlagArtificial' in s:
                    out.setdefault(d['scope'], {})[d.get('name') or 'this'] = d.get('type')
        return out

    # ---- names and types
    def q(self, n):
        return M.strip_templates(self.prog.dem(n).split('(')[0]) if n.startswith('_Z') else n

    def fname(self, f):
        q = M.strip_templates(self.prog.dem(f.name))
        return q.split('(')[0] if '(anonymous' not in q else q

    def const_pointee(self, m, t):
        ptr = False
        for _ in range(30):
            if not isinstance(t, int):
                return False
            s = m.meta.get(t, '')
            d = ir.parse_md(s)
            if 'DW_TAG_const_type' in s:
                if ptr:
                    return True
            elif 'DW_TAG_pointer_type' in s or 'DW_TAG_reference_type' in s or 'DW_TAG_rvalue_reference_type' in s:
                if ptr:
                    return False
                ptr = True
            elif not ('DW_TAG_typedef' in s or 'DW_TAG_volatile' in s):
                return False
            t = d.get('baseType')
        return False

    def is_const(self, m, t):
        for _ in range(30):
            s = m.meta.get(t, '') if isinstance(t, int) else ''
            if 'DW_TAG_const_type' in s:
                return True
            d = ir.parse_md(s)
            if 'DW_TAG_array_type' not in s and 'DW_TAG_typedef' not in s:
                return False
            t = d.get('baseType')
        return False

    # ---- STATE
    def state(self):
        o = Rule('STATE')
        users = {}
        called = {}
        for m in self.mods:
            for n, f in m.functions.items():
                for i in f.all_instrs():
                    g = set()
                    refs(i.a, g)
                    for x in g:
                        users.setdefault((m, x), set()).add(f)
                        called.setdefault(x, set()).add(f)
        for m in self.mods:
            for g, text in m.globals.items():
                if re.search(r'\b(external|available_externally)\b', text.split('global')[0].split('constant')[0]):
                    continue
                o.count('variables')
                if not re.match(r'.*?\bglobal\b', text.split('{')[0].split('"')[0]) or re.match(r'[\w() ]*\bconstant\b', text):
                    continue
                dv = self.variable(m, text)
                if dv is None:
                    # guards, iostream initialisers and the like belong to another variable
                    continue
                name, t, file, line, tls = dv
                if not ours(file):
                    continue
                o.count('mutable')
                if self.is_const(m, t):
                    continue
                us = users.get((m, g), set())
                ty = self.prog.tydesc(m, t)
                if ty[0] == 'cls' and ty[1].startswith('std::atomic'):
                    for f in sorted(us, key=lambda f: f.name):
                        if self.fname(f).startswith('__cxx_global') or f.name.startswith('_GLOBAL__') or f.name.startswith('__cxx'):
                            continue
                        gives = f.ret != ('void',) or any(a[0][0] == 'ptr' and not self.const_pointee(m, self.args[m].get(f.sp, {}).get(a[1].lstrip('%'))) and a[1] not in ('this', '%this') for a in f.params)
                        o.count('counter_users')
                        if gives:
                            for c in sorted(called.get(f.name, ()), key=lambda c: c.name):
                                if c is not f:
                                    o.bad(('readback', name, self.fname(c)), '%s reads the shared counter %s through %s: its result depends on earlier calls' % (self.fname(c), name, self.fname(f)),
                                          self.files.get(c, ''), self.lines.get(c, 0), self.fname(c))
                    continue
                fn = sorted(self.fname(f) for f in us if not f.name.startswith('_GLOBAL__') and not f.name.startswith('__cxx')) or ['?']
                o.bad(('static', name), 'the variable %s outlives the call and can change: results of %s can depend on earlier or concurrent calls' % (name, ', '.join(fn[:3])), file, line, fn[0])
        return o

    def variable(self, m, text):
        x = re.findall(r'!dbg !(\d+)', text)
        if not x:
            return None
        d = ir.parse_md(m.meta.get(int(x[0]), ''))
        if d.get('_k') == 'DIGlobalVariableExpression':
            d = ir.parse_md(m.meta.get(d.get('var'), ''))
        if d.get('_k') != 'DIGlobalVariable':
            return None
        fd = ir.parse_md(m.meta.get(d.get('file'), ''))
        f = fd.get('filename') or ''
        if f.startswith(ir.REPO + '/'):
            f = f[len(ir.REPO) + 1:]
        return d.get('name'), d.get('type'), f, int(d.get('line', 0)), 'thread_local' in text

    # ---- OUTSIDE
    def outside(self):
        o = Rule('OUTSIDE')
        graph, sites = {}, {}
        for f in [f for m in self.mods for f in m.functions.values()]:
            for i in f.all_instrs():
                g = set()
                refs(i.a, g)
                for x in g:
                    c = self.prog.resolve(f.mod, x)
                    if c is not None:
                        graph.setdefault(f, set()).add(c)
                if i.op == 'call' and i.a[0][0] == 'g':
                    sites.setdefault(f, []).append((i.a[0][1], i))
        roots = [f for f in self.fns if not self.fname(f).startswith(N + 'H264Utils::') and f.linkage != 'internal' and (N in self.fname(f))]
        o.count('roots', len(roots))
        how = {f: None for f in roots}
        work = list(roots)
        while work:
            f = work.pop()
            for c in graph.get(f, ()):
                if c not in how:
                    how[c] = f
                    work.append(c)
        o.count('reachable', len(how))
        own = set(self.fns)
        for f in how:
            if f not in own:
                continue             # of the standard library: judged at its call
            for n, i in sites.get(f, ()):
                o.count('calls')
                q = self.q(n)
                if OUTSIDE.match(q) or OUTSIDE.match(re.sub(r'std::(__cxx11|_V2)::', 'std::', q)):
                    path, p = [self.fname(f).split('::')[-1]], how[f]
                    while p is not None and len(path) < 6:
                        path.append(self.fname(p).split('::')[-1])
                        p = how[p]
                    file, line = f.mod.loc(i.dbg)
                    o.bad(('call', q, self.fname(f)), '%s is called in the library (path: %s)' % (q, ' <- '.join(path)), file, line, self.fname(f))
        return o

    # ---- CONST
    def members_const(self, m):
        """(struct type name, offset) of members that are pointers to const"""
        if not hasattr(self, '_mc'):
            self._mc = {}
        if m in self._mc:
            return self._mc[m]
        out = set()
        for i, s in m.meta.items():
            if 'DICompositeType' in s and 'identifier: "_ZTS' in s:
                q = self.prog.qual(m, i)
                if not q.startswith(N):
                    continue
                md = re.search(r'elements: !(\d+)', s)
                for e in re.findall(r'!(\d+)', m.meta.get(int(md.group(1)), '')) if md else ():
                    es = m.meta.get(int(e), '')
                    if 'DW_TAG_member' in es and 'DIFlagStaticMember' not in es:
                        d = ir.parse_md(es)
                        if self.const_pointee(m, d.get('baseType')):
                            out.add((q, int(d.get('offset', 0)) // 8))
        self._mc[m] = out
        return out

    def field(self, m, i):
        """(struct, offset) a gep addresses, if constant"""
        t = i.ty
        if t[0] != 'struct':
            return None
        ix = i.a[1:]
        if len(ix) != 2:
            return None
        v = ix[1][1] if isinstance(ix[1], tuple) and len(ix[1]) >= 2 else None
        if not (isinstance(v, tuple) and v[0] == 'i' or isinstance(v, int)):
            k = v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], int) else None
        else:
            k = v[1] if isinstance(v, tuple) else v
        if not isinstance(k, int):
            return None
        try:
            _, _, offs = m.layout(t)
        except Exception:
            return None
        nm = re.sub(r'^%?"?(class|struct)\.', '', t[1]).rstrip('"').lstrip('%')
        return (nm, offs[k]) if k < len(offs) else None

    def const(self):
        o = Rule('CONST')
        for f in self.fns:
            self.const_fn(o, f)
        return o

    def const_fn(self, o, f):
        m = f.mod
        types = self.args[m].get(f.sp, {})
        ctor = re.search(r'::~?(\w+)$', self.fname(f))
        parts = self.fname(f).split('::')
        if len(parts) > 1 and parts[-1].lstrip('~') == parts[-2]:
            types = {k: v for k, v in types.items() if k != 'this'}
        taint = {}
        for ty, n, at in f.params:
            nm = n.lstrip('%')
            if ty[0] == 'ptr' and nm in types and self.const_pointee(m, types[nm]):
                taint[n] = nm
        mc = self.members_const(m)
        holds = {}            # alloca or field address -> what the pointer in it points to
        o.count('functions')

        def get(v):
            return taint.get(v[1]) if isinstance(v, tuple) and len(v) == 2 and v[0] == 'l' else None
        changed = True
        while changed:
            changed = False

            def put(d, k, v):
                nonlocal changed
                if v is not None and k not in d:
                    d[k] = v
                    changed = True
            for i in f.all_instrs():
                if i.op == 'store' and i.ty[0] == 'ptr' and i.a[1][0] == 'l':
                    put(holds, i.a[1][1], get(i.a[0]))
                elif i.op == 'load' and i.ty[0] == 'ptr' and i.a[0][0] == 'l':
                    put(taint, i.res, holds.get(i.a[0][1]))
                elif i.op == 'gep':
                    b = i.a[0][1]
                    if isinstance(b, tuple) and b[0] == 'l':
                        put(taint, i.res, taint.get(b[1]))
                    fd = self.field(m, i)
                    if fd in mc:
                        put(holds, i.res, fd[0].split('::')[-1] + ' member')
                elif i.op in ('bitcast', 'freeze', 'phi', 'select', 'addrspacecast'):
                    g = []
                    self.locals(i.a, g)
                    for x in g:
                        put(taint, i.res, taint.get(x))
        for i in f.all_instrs():
            w = None
            if i.op == 'store':
                o.count('stores')
                w = get(i.a[1])
            elif i.op in RMW:
                g = []
                self.locals(i.a, g)
                w = next((taint[x] for x in g if x in taint), None)
            elif i.op == 'call' and i.a[0][0] == 'g':
                o.count('calls')
                n = i.a[0][1]
                if WRITERS.match(self.q(n)):
                    w = get(i.a[1][0][1]) if i.a[1] else None
                else:
                    c = self.prog.resolve(m, n)
                    if c is not None:
                        c.parse()
                        if ours(self.files.get(c, '')):
                            ct = self.args[c.mod].get(c.sp, {})
                            for (at, av, aa), (pt, pn, pa) in zip(i.a[1], c.params):
                                t = get(av)
                                nm = pn.lstrip('%')
                                if t is not None and nm in ct and 'ptr' == pt[0] and not self.const_pointee(c.mod, ct[nm]) and not self.byvalue(c.mod, ct[nm]):
                                    file, line = m.loc(i.dbg)
                                    o.bad(('cast', self.fname(f), self.fname(c), nm), '%s hands constant data (%s) to %s, which may change it' % (self.fname(f), t, self.fname(c)), file, line, self.fname(f))
            if w is not None:
                file, line = m.loc(i.dbg)
                o.bad(('write', self.fname(f), w), '%s writes to constant data (%s)' % (self.fname(f), w), file, line, self.fname(f))

    def byvalue(self, m, t):
        s = m.meta.get(t, '') if isinstance(t, int) else ''
        return 'DW_TAG_pointer_type' not in s and 'DW_TAG_reference_type' not in s and 'DW_TAG_rvalue' not in s and 'DW_TAG_typedef' not in s and 'DW_TAG_const_type' not in s

    def locals(self, x, out):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
                out.append(x[1])
            else:
                for y in x:
                    self.locals(y, out)


def run(prog, tier='quick'):
    e = Effects(prog)
    e.do('STATE', e.state)
    e.do('OUTSIDE', e.outside)
    e.do('CONST', e.const)
    for l, o in e.runs:
        print(l, o.stats) if __name__ == '__main__' else None
    return e


if __name__ == '__main__':
    main(run)
