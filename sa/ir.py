"""Front end: /repo sources -> clang LLVM IR (unoptimised) -> Python objects.

Nothing is executed: the IR is only parsed.  One Module per translation unit;
a Program is the set of modules with functions indexed by mangled name.
"""
import os, re, subprocess, sys, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
DEFS = ["-DFDUMP_DEFINE", "-DRTP_DEFINE", "-DFPRINT_ERRORS"]


class FrontEndError(Exception):
    pass


TOK = re.compile(r'''
   (?P<str>c?"(?:[^"])*") |
   (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
   (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
   (?P<meta>![a-zA-Z0-9_.]*) |
   (?P<attr>\#[0-9]+) |
   (?P<num>-?(?:0x[0-9A-Fa-fKLMHR]+|[0-9]+(?:\.[0-9]+(?:e[-+]?[0-9]+)?)?)) |
   (?P<id>[a-zA-Z_$.][-a-zA-Z0-9_$.]*) |
   (?P<p>[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    return [(m.lastgroup, m.group()) for m in TOK.finditer(s)]


def unq(n):
    """strip sigil/quotes of a %name / @name token"""
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


# ---------------------------------------------------------------- types
# ('i',w) ('ptr',) ('void',) ('f',name) ('arr',n,t) ('struct',name) ('lit',packed,(types)) ('vec',n,t) ('label',) ('meta',)
PTR = ('ptr',)


class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, t):
        self.t = t
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def val(self):
        return self.peek()[1]

    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise FrontEndError("IR parse: expected %r got %r near %r" % (v, self.val(), self.t[max(0, self.i - 6):self.i + 6]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1


def is_type_start(tok):
    k, v = tok
    if k == 'id':
        return v in ('void', 'ptr', 'float', 'double', 'label', 'metadata', 'half', 'x86_fp80', 'fp128', 'token') or re.fullmatch(r'i[0-9]+', v) is not None
    if k == 'loc':
        return v.startswith('%"') or v.startswith('%class.') or v.startswith('%struct.') or v.startswith('%union.') or v.startswith('%enum.')
    return v in ('[', '{', '<')


def parse_type(p):
    k, v = p.next()
    if k == 'id':
        if v == 'ptr':
            if p.val() == 'addrspace':
                p.next(); p.skip_parens()
            return PTR
        if v == 'void':
            return ('void',)
        m = re.fullmatch(r'i([0-9]+)', v)
        if m:
            t = ('i', int(m.group(1)))
        elif v in ('label', 'metadata', 'token'):
            t = (v,)
        else:
            t = ('f', v)
    elif k == 'loc':
        t = ('struct', unq(v))
    elif v == '[':
        n = int(p.next()[1]); p.expect('x'); e = parse_type(p); p.expect(']')
        t = ('arr', n, e)
    elif v == '<':
        if p.val() == '{':
            p.next(); fs = []
            while p.val() != '}':
                fs.append(parse_type(p)); p.eat(',')
            p.next(); p.expect('>')
            t = ('lit', True, tuple(fs))
        else:
            n = int(p.next()[1]); p.expect('x'); e = parse_type(p); p.expect('>')
            t = ('vec', n, e)
    elif v == '{':
        fs = []
        while p.val() != '}':
            fs.append(parse_type(p)); p.eat(',')
        p.next()
        t = ('lit', False, tuple(fs))
    else:
        raise FrontEndError("IR parse: bad type token %r" % (v,))
    # function type suffix "i32 (ptr, ptr, ...)"
    while p.val() == '(' and t[0] != 'label':
        # only treat as function type if what follows looks like a type list
        nk = p.peek(1)
        if is_type_start(nk) or nk[1] in (')', '...') or (nk[1] or '').startswith('..'):
            p.skip_parens()
            t = ('fn', t)
        else:
            break
    return t


CONST_EXPRS = ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'add', 'sub', 'select', 'icmp')


def parse_value(p, ty):
    """operand without its type: ('l',name) ('g',name) ('c',int) ('null',) ('undef',) ('zero',) ('f',txt) ('agg',...) ('cgep',...)"""
    k, v = p.next()
    if k == 'loc':
        return ('l', unq(v))
    if k == 'glob':
        return ('g', unq(v))
    if k == 'num':
        if ty[0] == 'i':
            return ('c', int(v))
        return ('f', v)
    if k == 'id':
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v in CONST_EXPRS:
            while p.peek()[0] == 'id' and p.peek()[1] in ('inbounds', 'nuw', 'nsw'):
                p.next()
            if v == 'getelementptr':
                p.expect('(')
                bt = parse_type(p); p.expect(',')
                args = []
                while True:
                    p.eat('inrange')
                    t = parse_type(p)
                    args.append((t, parse_value(p, t)))
                    if not p.eat(','):
                        break
                p.expect(')')
                return ('cgep', bt, args)
            p.skip_parens()
            return ('undef',)
    if k == 'str':
        return ('str', v)
    if v in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[v]
        packed = v == '<' and p.val() == '{'
        if packed:
            p.next()
            close = '}'
        el = []
        while p.val() != close:
            t = parse_type(p)
            el.append((t, parse_value(p, t)))
            p.eat(',')
        p.next()
        if packed:
            p.expect('>')
        return ('agg', el)
    if k == 'meta':
        return ('meta',)
    raise FrontEndError("IR parse: bad value %r %r near %r" % (k, v, p.t[max(0, p.i - 8):p.i + 4]))


def skip_attrs(p):
    """skip parameter attributes before a value; returns dict of interesting ones"""
    at = {}
    while True:
        k, v = p.peek()
        if k == 'id' and v not in ('null', 'undef', 'poison', 'true', 'false', 'zeroinitializer') and v not in CONST_EXPRS:
            p.next()
            if p.val() == '(':
                if v in ('sret', 'byval'):
                    p.next()
                    at[v] = parse_type(p)
                    p.expect(')')
                else:
                    p.skip_parens()
            elif v == 'align':
                p.next()
            else:
                at[v] = True
        elif k == 'str':
            p.next()
            if p.eat('='):
                p.next()
        else:
            return at


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')
    # a: op specific tuple

    def __init__(self, op, res, ty, a, dbg, text):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.dbg = dbg; self.text = text

    def __repr__(self):
        return self.text


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nneg', 'disjoint', 'volatile', 'samesign'}
DBG = re.compile(r'!dbg !(\d+)')


def parse_instr(line):
    m = DBG.search(line)
    dbg = int(m.group(1)) if m else None
    body = line.strip()
    # strip trailing metadata
    j = body.find(', !')
    core = body
    if j >= 0 and 'metadata' not in body[:j]:
        core = body[:j]
    toks = tokenize(core)
    p = P(toks)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = unq(p.next()[1]); p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]

    def flags():
        while p.peek()[0] == 'id' and p.peek()[1] in FLAGS:
            p.next()
    if op == 'alloca':
        t = parse_type(p)
        n = None
        if p.eat(','):
            if p.val() != 'align':
                nt = parse_type(p); n = parse_value(p, nt)
        return Instr('alloca', res, t, (n,), dbg, body)
    if op == 'load':
        if p.val() == 'atomic':
            p.next()
        flags()
        t = parse_type(p); p.expect(',')
        pt = parse_type(p); v = parse_value(p, pt)
        return Instr('load', res, t, (v,), dbg, body)
    if op == 'store':
        if p.val() == 'atomic':
            p.next()
        flags()
        t = parse_type(p); v = parse_value(p, t); p.expect(',')
        pt = parse_type(p); d = parse_value(p, pt)
        return Instr('store', None, t, (v, d), dbg, body)
    if op == 'getelementptr':
        flags()
        bt = parse_type(p); p.expect(',')
        args = []
        while True:
            t = parse_type(p)
            args.append((t, parse_value(p, t)))
            if not p.eat(','):
                break
        return Instr('gep', res, bt, tuple(args), dbg, body)
    if op == 'icmp' or op == 'fcmp':
        flags()
        pred = p.next()[1]
        t = parse_type(p); a = parse_value(p, t); p.expect(','); b = parse_value(p, t)
        return Instr(op, res, t, (pred, a, b), dbg, body)
    if op in BINOPS:
        fl = set()
        while p.peek()[0] == 'id' and p.peek()[1] in FLAGS:
            fl.add(p.next()[1])
        t = parse_type(p); a = parse_value(p, t); p.expect(','); b = parse_value(p, t)
        return Instr('bin', res, t, (op, a, b, frozenset(fl)), dbg, body)
    if op == 'fneg':
        flags()
        t = parse_type(p); a = parse_value(p, t)
        return Instr('fneg', res, t, (a,), dbg, body)
    if op in CASTS:
        flags()
        t = parse_type(p); a = parse_value(p, t); p.expect('to'); t2 = parse_type(p)
        return Instr('cast', res, t2, (op, t, a), dbg, body)
    if op == 'br':
        if p.val() == 'label':
            p.next(); l = unq(p.next()[1])
            return Instr('br', None, None, (l,), dbg, body)
        t = parse_type(p); c = parse_value(p, t); p.expect(',')
        p.expect('label'); a = unq(p.next()[1]); p.expect(','); p.expect('label'); b = unq(p.next()[1])
        return Instr('cbr', None, None, (c, a, b), dbg, body)
    if op == 'switch':
        t = parse_type(p); v = parse_value(p, t); p.expect(','); p.expect('label'); d = unq(p.next()[1])
        p.expect('[')
        cases = []
        while p.val() != ']':
            ct = parse_type(p); cv = parse_value(p, ct); p.expect(','); p.expect('label'); l = unq(p.next()[1])
            cases.append((cv[1], l))
        return Instr('switch', None, t, (v, d, cases), dbg, body)
    if op == 'ret':
        t = parse_type(p)
        v = None
        if t != ('void',):
            v = parse_value(p, t)
        return Instr('ret', None, t, (v,), dbg, body)
    if op == 'unreachable':
        return Instr('unreachable', None, None, (), dbg, body)
    if op == 'phi':
        flags()
        t = parse_type(p)
        inc = []
        while True:
            p.expect('['); v = parse_value(p, t); p.expect(','); l = unq(p.next()[1]); p.expect(']')
            inc.append((v, l))
            if not p.eat(','):
                break
        return Instr('phi', res, t, tuple(inc), dbg, body)
    if op == 'select':
        flags()
        t0 = parse_type(p); c = parse_value(p, t0); p.expect(',')
        t1 = parse_type(p); a = parse_value(p, t1); p.expect(',')
        t2 = parse_type(p); b = parse_value(p, t2)
        return Instr('select', res, t1, (c, a, b), dbg, body)
    if op == 'extractvalue':
        t = parse_type(p); v = parse_value(p, t)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return Instr('extractvalue', res, t, (v, tuple(idx)), dbg, body)
    if op == 'insertvalue':
        t = parse_type(p); v = parse_value(p, t); p.expect(',')
        t2 = parse_type(p); v2 = parse_value(p, t2)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return Instr('insertvalue', res, t, (v, v2, tuple(idx)), dbg, body)
    if op == 'freeze':
        t = parse_type(p); v = parse_value(p, t)
        return Instr('freeze', res, t, (v,), dbg, body)
    if op == 'atomicrmw':
        flags()
        rop = p.next()[1]
        pt = parse_type(p); ptr = parse_value(p, pt); p.expect(',')
        t = parse_type(p); v = parse_value(p, t)
        return Instr('atomicrmw', res, t, (rop, ptr, v), dbg, body)
    if op in ('call', 'invoke'):
        # flags, cc, ret attrs, type, callee, args
        while p.peek()[0] == 'id' and not is_type_start(p.peek()):
            v = p.next()[1]
            if p.val() == '(':
                p.skip_parens()
            elif v == 'align':
                p.next()
        t = parse_type(p)
        if t[0] == 'fn':
            t = t[1]
        ck, cv = p.next()
        if ck == 'glob':
            callee = ('g', unq(cv))
        elif ck == 'loc':
            callee = ('l', unq(cv))
        else:
            return Instr('call', res, t, (('asm',), ()), dbg, body)
        p.expect('(')
        args = []
        while p.val() != ')':
            at = parse_type(p)
            if at == ('metadata',):
                # debug intrinsics
                d = 0
                while not (d == 0 and p.val() in (',', ')')):
                    v = p.next()[1]
                    if v in '([{':
                        d += 1
                    elif v in ')]}':
                        d -= 1
                args.append((at, ('meta',), {}))
            else:
                aa = skip_attrs(p)
                args.append((at, parse_value(p, at), aa))
            p.eat(',')
        return Instr('call', res, t, (callee, tuple(args)), dbg, body)
    if op == 'va_arg':
        return Instr('opaque', res, ('i', 64), (op,), dbg, body)
    # unknown instruction
    return Instr('opaque', res, ('i', 64), (op,), dbg, body)


class Function:
    def __init__(self, mod, name, header, lines, linkage):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = lines
        self.linkage = linkage
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        toks = tokenize(self.header)
        p = P(toks)
        # find '@name' then '('
        while p.peek()[0] != 'glob':
            p.next()
        # return type: rescan
        q = P(toks)
        q.next()  # define
        while not is_type_start(q.peek()):
            v = q.next()[1]
            if q.val() == '(':
                q.skip_parens()
            elif v == 'align':
                q.next()
        self.ret = parse_type(q)
        p.next(); p.expect('(')
        self.params = []
        self.vararg = False
        while p.val() != ')':
            if p.val() and p.val().startswith('..'):
                self.vararg = True
                p.next(); continue
            t = parse_type(p)
            at = skip_attrs(p)
            n = unq(p.next()[1])
            self.params.append((t, n, at))
            p.eat(',')
        m = re.search(r'!dbg !(\d+)', self.header)
        self.sp = int(m.group(1)) if m else None
        self.blocks = {}
        self.order = []
        cur = None
        buf = None
        for ln in self.lines:
            s = ln.split('; preds')[0].rstrip() if ln and not ln.startswith(' ') else ln
            if not s.strip():
                continue
            if not ln.startswith(' '):
                lab = s.split(':')[0].strip()
                if lab.startswith(';'):
                    continue
                lab = lab[1:-1] if lab.startswith('"') else lab
                cur = lab
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = 'entry' if False else '0'
                self.blocks[cur] = []
                self.order.append(cur)
            if buf is not None:
                buf += ' ' + s.strip()
                if s.strip().startswith(']'):
                    self.blocks[cur].append(parse_instr(buf)); buf = None
                continue
            st = s.strip()
            if st.startswith('switch') and not st.rstrip().endswith(']') and ']' not in st:
                buf = st
                continue
            if 'llvm.dbg.' in st:
                continue
            self.blocks[cur].append(parse_instr(st))
        self._parsed = True
        return self

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]]
        if t.op == 'cbr':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            out = []
            for _, l in t.a[2]:
                if l not in out:
                    out.append(l)
            if t.a[1] not in out:
                out.append(t.a[1])
            return out
        return []

    def all_instrs(self):
        for b in self.order:
            for i in self.blocks[b]:
                yield i

    def __repr__(self):
        return "<fn %s>" % self.name


class Module:
    def __init__(self, path, src):
        self.path = path
        self.src = src
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.decls = set()
        self.meta = {}
        self._members = {}
        self._lay = {}
        self._load()

    def _load(self):
        with open(self.path) as f:
            lines = f.read().split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            c = ln[:1]
            if c == '%':
                m = re.match(r'(%(?:"[^"]*"|\S+)) = type (.*)$', ln)
                if m:
                    self.types[unq(m.group(1))] = m.group(2)
            elif c == '@':
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                if m:
                    nm = m.group(1)
                    nm = nm[1:-1] if nm.startswith('"') else nm
                    self.globals[nm] = m.group(2)
            elif ln.startswith('define'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                nm = m.group(1)
                nm = nm[1:-1] if nm.startswith('"') else nm
                j = i + 1
                while lines[j] != '}':
                    j += 1
                lk = 'internal' if re.search(r'^define\s+(internal|private)', ln) else 'external'
                self.functions[nm] = Function(self, nm, ln, lines[i + 1:j], lk)
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            i += 1

    # ---- layout
    def struct_fields(self, name):
        t = self.types.get(name)
        if t is None or t == 'opaque':
            return None
        if isinstance(t, str):
            t = parse_type(P(tokenize(t)))
            self.types[name] = t
        return t  # ('lit',packed,types)

    def size_align(self, t):
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            if b in (3,):
                b = 4
            p = 1
            while p < b:
                p *= 2
            return p, min(p, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'f':
            s = {'float': 4, 'double': 8, 'half': 2, 'x86_fp80': 16, 'fp128': 16}[t[1]]
            return s, s
        if k in ('arr', 'vec'):
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k in ('struct', 'lit'):
            s, a, _ = self.layout(t)
            return s, a
        return 0, 1

    def layout(self, t):
        if t in self._lay:
            return self._lay[t]
        lit = t
        if t[0] == 'struct':
            lit = self.struct_fields(t[1])
            if lit is None:
                return 0, 1, []
        packed, fs = lit[1], lit[2]
        off, al, offs = 0, 1, []
        for f in fs:
            s, a = self.size_align(f)
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            offs.append((off, f))
            off += s
            al = max(al, a)
        size = (off + al - 1) // al * al
        r = (size, al, offs)
        self._lay[t] = r
        return r

    # ---- debug info
    def md(self, i):
        return parse_md(self.meta.get(i, ''))

    def loc(self, dbg):
        """-> (file, line)"""
        if dbg is None:
            return ('?', 0)
        m = self.meta.get(dbg, '')
        ml = re.search(r'line: (\d+)', m)
        ms = re.search(r'scope: !(\d+)', m)
        line = int(ml.group(1)) if ml else 0
        f = '?'
        if ms:
            sc = int(ms.group(1))
            for _ in range(50):
                d = self.meta.get(sc, '')
                mf = re.search(r'file: !(\d+)', d)
                if mf:
                    fd = self.meta.get(int(mf.group(1)), '')
                    mm = re.search(r'filename: "([^"]*)"', fd)
                    f = mm.group(1) if mm else '?'
                    break
                ms2 = re.search(r'scope: !(\d+)', d)
                if not ms2:
                    break
                sc = int(ms2.group(1))
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        return (f, line)


def parse_md(s):
    d = {}
    for m in re.finditer(r'(\w+): (?:"([^"]*)"|!(\d+)|([^,()]+))', s):
        d[m.group(1)] = m.group(2) if m.group(2) is not None else (int(m.group(3)) if m.group(3) else m.group(4).strip())
    m = re.match(r'(?:distinct )?!(\w+)\(', s)
    d['_k'] = m.group(1) if m else None
    return d


class Program:
    def __init__(self, modules):
        self.modules = modules
        self.fn = {}
        self.demangled = {}
        self.structs = {}     # qualified name -> [(off,size,name,typedesc)]
        for m in modules:
            for n, f in m.functions.items():
                if f.linkage == 'internal':
                    continue
                self.fn.setdefault(n, f)
        self._demangle()
        self._members()

    def resolve(self, mod, name):
        f = mod.functions.get(name)
        if f is not None:
            return f
        return self.fn.get(name)

    def _demangle(self):
        names = set()
        for m in self.modules:
            names.update(m.functions)
            names.update(m.decls)
        names = sorted(n for n in names if n.startswith('_Z'))
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, r.stdout.split('\n')):
            self.demangled[a] = b

    def dem(self, n):
        return self.demangled.get(n, n)

    def enums(self):
        """enum type name -> {enumerator: value} from debug info"""
        out = {}
        for m in self.modules:
            for i, s in m.meta.items():
                if 'DW_TAG_enumeration_type' not in s:
                    continue
                mm = re.search(r'name: "([^"]+)"', s)
                e = re.search(r'elements: !(\d+)', s)
                if not mm or not e:
                    continue
                d = {}
                el = m.meta.get(int(e.group(1))) or m.meta.get(e.group(1)) or m.meta.get('!' + e.group(1))
                for k in re.findall(r'!(\d+)', el or ''):
                    x = m.meta.get(int(k)) or m.meta.get(k) or m.meta.get('!' + k) or ''
                    q = re.search(r'DIEnumerator\(name: "([^"]+)", value: (-?\d+)', x)
                    if q:
                        d[q.group(1)] = int(q.group(2))
                out.setdefault(mm.group(1), d)
        return out

    # struct members from debug info
    def _members(self):
        for m in self.modules:
            ids = {}
            for i, s in m.meta.items():
                if 'DICompositeType' in s and 'identifier: "_ZTS' in s and 'DW_TAG_enumeration' not in s:
                    ids[i] = s
            for i, s in ids.items():
                q = self.qual(m, i)
                if not q.startswith('h264nal') and not q.startswith('(anonymous'):
                    if not ('lambda' in q):
                        continue
                if q in self.structs and self.structs[q]:
                    continue
                md = re.search(r'elements: !(\d+)', s)
                if not md:
                    self.structs.setdefault(q, [])
                    continue
                el = m.meta.get(int(md.group(1)), '')
                out = []
                for e in re.findall(r'!(\d+)', el):
                    es = m.meta.get(int(e), '')
                    if 'DW_TAG_member' in es and 'DIFlagStaticMember' not in es:
                        d = parse_md(es)
                        out.append((int(d.get('offset', 0)) // 8, int(d.get('size', 0)) // 8, d.get('name', ''), self.tydesc(m, d.get('baseType'))))
                self.structs[q] = out

    def qual(self, m, i):
        s = m.meta.get(i, '')
        d = parse_md(s)
        n = d.get('name', '(anonymous)')
        sc = d.get('scope')
        if isinstance(sc, int):
            ss = m.meta.get(sc, '')
            if 'DINamespace' in ss or 'DICompositeType' in ss:
                q = self.qual(m, sc)
                return q + '::' + n
        return n

    def tydesc(self, m, i, depth=0):
        """type descriptor: ('u',bits) ('s',bits) ('bool',) ('float',) ('enum',name,size) ('cls',qualname) ('ptr',desc) ('arr',..)"""
        if depth > 12 or not isinstance(i, int):
            return ('void',)
        s = m.meta.get(i, '')
        d = parse_md(s)
        k = d['_k']
        if k == 'DIBasicType':
            enc = d.get('encoding', '')
            b = int(d.get('size', 0))
            if 'boolean' in enc:
                return ('bool',)
            if 'unsigned' in enc:
                return ('u', b)
            if 'signed' in enc:
                return ('s', b)
            if 'float' in enc:
                return ('float', b)
            return ('u', b)
        if k == 'DIDerivedType':
            if 'DW_TAG_pointer_type' in s or 'DW_TAG_reference_type' in s or 'DW_TAG_rvalue_reference' in s:
                return ('ptr', self.tydesc(m, d.get('baseType'), depth + 1))
            return self.tydesc(m, d.get('baseType'), depth + 1)
        if k == 'DICompositeType':
            if 'DW_TAG_enumeration' in s:
                return ('enum', d.get('name'), int(d.get('size', 32)))
            if 'DW_TAG_array' in s:
                return ('arr', self.tydesc(m, d.get('baseType'), depth + 1), int(d.get('size', 0)) // 8)
            return ('cls', self.qual(m, i))
        return ('void',)


def have_config_h(outdir):
    """own config.h (only PROJECT_VERSION strings), generated from src/config.h.in"""
    src = os.path.join(REPO, 'src', 'config.h.in')
    ver = '0.0'
    try:
        t = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        m = re.search(r'VERSION\s+([0-9.]+)', t)
        if m:
            ver = m.group(1)
    except OSError:
        pass
    if os.path.exists(src):
        s = open(src).read()
        s = re.sub(r'@[A-Za-z_]*MAJOR@', ver.split('.')[0], s)
        s = re.sub(r'@[A-Za-z_]*MINOR@', ver.split('.')[1] if '.' in ver else '0', s)
        s = re.sub(r'@[A-Za-z_]*PATCH@', '0', s)
        s = re.sub(r'@[A-Za-z_]+@', ver, s)
        s = re.sub(r'#cmakedefine\s+(\w+).*', r'/* \1 */', s)
        with open(os.path.join(outdir, 'config.h'), 'w') as f:
            f.write(s)


def sources():
    out = []
    d = os.path.join(REPO, 'src')
    for f in sorted(os.listdir(d)):
        if f.endswith('.cc'):
            out.append('src/' + f)
    out.append('tools/h264nal.cc')
    return out


def compile_ir(srcs=None, extra=(), workdir=None):
    own = workdir is None
    wd = workdir or tempfile.mkdtemp(prefix='verif_ir_')
    have_config_h(wd)
    srcs = srcs or sources()

    def one(s):
        o = os.path.join(wd, s.replace('/', '_')[:-3] + '.ll')
        cmd = ['clang++', '-std=c++14', '-O0', '-g', '-fno-exceptions', '-Xclang', '-disable-O0-optnone',
               '-fno-discard-value-names', '-Iinclude', '-Isrc', '-I' + wd, '-w'] + DEFS + list(extra) + ['-S', '-emit-llvm', s, '-o', o]
        r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
        if r.returncode != 0 and 'exceptions' in r.stderr:
            cmd.remove('-fno-exceptions')
            r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontEndError("clang failed on %s: %s" % (s, r.stderr[:800]))
        return o
    try:
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, srcs))
        mods = [Module(o, s) for o, s in zip(outs, srcs)]
    finally:
        if own:
            shutil.rmtree(wd, ignore_errors=True)
    return mods


def load_program(srcs=None, extra=()):
    return Program(compile_ir(srcs, extra))


if __name__ == '__main__':
    import time
    t = time.time()
    pr = load_program()
    print("loaded", time.time() - t)
    n = 0
    for m in pr.modules:
        for f in m.functions.values():
            f.parse()
            n += 1
            for i in f.all_instrs():
                if i.op == 'opaque':
                    print(i.text)
    print(n, "functions parsed", time.time() - t)
    for q in list(pr.structs)[:5]:
        print(q, pr.structs[q][:3])
