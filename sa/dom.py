"""Abstract value domain: linear expressions over symbols, interval sets, and a
store of constraints keyed by linear form (a small relational domain:
intervals + interval sets on linear forms + finite-domain tables for terms of
one symbol).  No solver is involved."""
from math import gcd

INF = 1 << 90
NINF = -INF


# ------------------------------------------------------------ interval sets
def iset(*iv):
    return tuple(iv)


TOP = ((NINF, INF),)
EMPTY = ()


def is_norm(ivs):
    ivs = sorted(i for i in ivs if i[0] <= i[1])
    out = []
    for lo, hi in ivs:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def is_and(a, b):
    if a == b:
        return a
    if a == TOP:
        return b
    if b == TOP:
        return a
    out = []
    for x in a:
        for y in b:
            lo = max(x[0], y[0]); hi = min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return is_norm(out)


def is_or(a, b):
    if a == b:
        return a
    return is_norm(list(a) + list(b))


def is_not(a):
    out = []
    cur = NINF
    for lo, hi in a:
        if cur <= lo - 1:
            out.append((cur, lo - 1))
        cur = hi + 1
    if cur <= INF:
        out.append((cur, INF))
    return tuple(out)


def is_subset(a, b):
    if a == b or b == TOP:
        return True
    for lo, hi in a:
        if not any(x[0] <= lo and hi <= x[1] for x in b):
            return False
    return True


def is_size(a):
    n = 0
    for lo, hi in a:
        n += hi - lo + 1
        if n > 1 << 40:
            return n
    return n


def is_shift(a, c):
    return tuple((lo + c if lo > NINF else NINF, hi + c if hi < INF else INF) for lo, hi in a)


def is_scale(a, k):
    """set {k*x}: exact only as hull pieces; used for k=+-1"""
    if k == 1:
        return a
    if k == -1:
        return tuple(sorted((-hi, -lo) for lo, hi in a))
    raise ValueError


def is_values(a):
    for lo, hi in a:
        for v in range(lo, hi + 1):
            yield v


# ------------------------------------------------------------ symbols
class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'expr', 'bases')
    table = []
    named = {}

    def __init__(self, name, lo, hi, expr=None):
        self.id = len(Sym.table)
        Sym.table.append(self)
        self.name = name
        self.lo = lo
        self.hi = hi
        self.expr = expr
        b = set()
        if expr is not None:
            for a in expr[1]:
                b |= bases_of(a)
        else:
            b.add(self.id)
        self.bases = frozenset(b)

    def __repr__(self):
        return self.name


class FV:
    """floating point term"""
    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __hash__(self):
        return hash((self.op, self.args))

    def __eq__(self, o):
        return isinstance(o, FV) and self.op == o.op and self.args == o.args

    def __repr__(self):
        return '%s(%s)' % (self.op, ','.join(map(repr, self.args)))


def fv(op, *args):
    import math
    cs = [a.args[0] if isinstance(a, FV) and a.op == 'c' else None for a in args]
    if op in ('add', 'sub', 'mul', 'div', 'log2', 'ceil', 'floor', 'log', 'log10', 'sqrt', 'round', 'trunc', 'pow', 'exp2') and all(c is not None for c in cs):
        try:
            return FV('c', (fv_eval(op, cs),))
        except (ValueError, ZeroDivisionError, OverflowError):
            pass
    if op == 'mul':
        if cs[0] == 1.0:
            return args[1]
        if cs[1] == 1.0:
            return args[0]
    if op in ('add', 'mul') and repr(args[0]) > repr(args[1]):
        args = (args[1], args[0])
    return FV(op, tuple(args))


def fv_eval(op, v):
    import math
    if op == 'add':
        return v[0] + v[1]
    if op == 'sub':
        return v[0] - v[1]
    if op == 'mul':
        return v[0] * v[1]
    if op == 'div':
        return v[0] / v[1]
    if op == 'pow':
        return math.pow(v[0], v[1])
    if op == 'exp2':
        return math.pow(2.0, v[0])
    if op == 'round':
        return math.floor(v[0] + 0.5)
    return float(getattr(math, op)(v[0]))


class NoEval(Exception):
    pass


def evaluate(x, env):
    """value of a linear form / condition / float term under env: sym id -> int"""
    if isinstance(x, Lin):
        r = x.c
        for i, q in x.t:
            r += q * fold_sym(Sym.table[i], env)
        return r
    if isinstance(x, FV):
        if x.op == 'c':
            return x.args[0]
        if x.op == 'i':
            return float(evaluate(x.args[0], env))
        try:
            return fv_eval(x.op, [evaluate(a, env) for a in x.args])
        except (ValueError, ZeroDivisionError, OverflowError, AttributeError, TypeError):
            raise NoEval(x.op)
    if x is True or x is False:
        return x
    if isinstance(x, tuple):
        if x[0] == 'atom':
            v = evaluate(x[1], env)
            return any(a <= v <= b for a, b in x[2])
        if x[0] == 'not':
            return not evaluate(x[1], env)
        vs = [evaluate(y, env) for y in x[1:]]
        return all(vs) if x[0] == 'and' else any(vs)
    raise NoEval(repr(x))


def fold_sym(y, env):
    if y.id in env:
        return env[y.id]
    if y.expr is None:
        raise NoEval(y.name)
    op, args = y.expr
    v = [evaluate(a, env) for a in args if not isinstance(a, (int, str))]
    if op == 'mul':
        return v[0] * v[1]
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        if v[1] == 0:
            raise NoEval('div0')
        q = abs(v[0]) // abs(v[1]) * (1 if (v[0] < 0) == (v[1] < 0) else -1)
        return q if op.endswith('div') else v[0] - q * v[1]
    if op == 'and':
        return v[0] & v[1]
    if op == 'or':
        return v[0] | v[1]
    if op == 'xor':
        return v[0] ^ v[1]
    if op == 'lshr':
        return v[0] >> v[1]
    if op == 'shl' and 0 <= v[1] < 64:
        return v[0] << v[1]
    if op == 'b2i':
        return 1 if v[0] else 0
    if op == 'ceillog2':
        return (v[0] - 1).bit_length() if v[0] > 0 else 0
    if op in ('fptoui', 'fptosi'):
        if v[0] != v[0] or abs(v[0]) > 1e18:
            raise NoEval('fp')
        return int(v[0])
    raise NoEval(op)


def sample_compare(store, a, b, limit=4000):
    """decide a == b for terms with non linear parts by folding them over
    sample points of their base symbols: 'eq' | ('ne', witness) | None"""
    import itertools
    ids = sorted(bases_of(a) | bases_of(b))
    if any(Sym.table[i].name.startswith(('?', 'fpto', 'undef')) for i in ids):
        return None
    if not ids or len(ids) > 5:
        return None
    doms = []
    for i in ids:
        vs = store.value_set(Lin(0, ((i, 1),)))
        if not vs:
            return None
        lo, hi = vs[0][0], vs[-1][1]
        if lo <= NINF or hi >= INF:
            return None
        pts = {lo, hi, (lo + hi) // 2}
        for k in range(0, 34):
            for d in (-1, 0, 1):
                pts.add((1 << k) + d)
        for k in range(0, 18):
            pts.add(lo + k)
        pts = sorted(p for p in pts if any(x <= p <= y for x, y in vs))
        doms.append(pts)
    n = 1
    for d in doms:
        n *= len(d)
    if n > limit:
        import random
        rnd = random.Random(1)
        it = (tuple(rnd.choice(d) for d in doms) for _ in range(limit))
    else:
        it = itertools.product(*doms)
    idset = set(ids)
    forms = [(f, s) for f, s in store.d.items() if all(Sym.table[i].bases <= idset for i, _ in f)]
    cnt = 0
    for p in it:
        env = dict(zip(ids, p))
        try:
            if not all(any(x <= evaluate(Lin(0, f), env) <= y for x, y in s) for f, s in forms):
                continue
            va, vb = evaluate(a, env), evaluate(b, env)
        except NoEval:
            return None
        cnt += 1
        if va != vb:
            return ('ne', {Sym.table[i].name: v for i, v in env.items()}, va, vb)
    return 'eq' if cnt >= 8 or (n <= limit and cnt) else None


def bases_of(a):
    if isinstance(a, Lin):
        s = set()
        for i, _ in a.t:
            s |= Sym.table[i].bases
        return s
    if isinstance(a, FV):
        s = set()
        for x in a.args:
            s |= bases_of(x)
        return s
    if isinstance(a, tuple) and a and a[0] in ('atom', 'and', 'or', 'not'):
        s = set()
        for x in a[1:]:
            s |= bases_of(x)
        return s
    return set()


def sym(name, lo=NINF, hi=INF):
    s = Sym.named.get(name)
    if s is None:
        s = Sym(name, lo, hi)
        Sym.named[name] = s
    return s


_derived = {}


def derived(op, args, lo, hi):
    k = (op, args)
    s = _derived.get(k)
    if s is None:
        s = Sym('%s(%s)' % (op, ','.join(fmt(a) for a in args)), lo, hi, (op, args))
        _derived[k] = s
    return s


def fmt(a):
    return repr(a) if not isinstance(a, tuple) else fmt_cond(a)


_fresh = [0]


def fresh(name, lo=NINF, hi=INF):
    _fresh[0] += 1
    return Sym('%s~%d' % (name, _fresh[0]), lo, hi)


# ------------------------------------------------------------ linear expressions
class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = '+'.join(('' if k == 1 else '%d*' % k) + Sym.table[i].name for i, k in self.t)
        if self.c:
            s += '%+d' % self.c
        return s

    def add(self, o, k=1):
        if not o.t:
            return Lin(self.c + k * o.c, self.t)
        d = dict(self.t)
        for i, q in o.t:
            n = d.get(i, 0) + k * q
            if n:
                d[i] = n
            else:
                d.pop(i, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))

    def addc(self, c):
        return Lin(self.c + c, self.t)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((i, q * k) for i, q in self.t))

    def is_const(self):
        return not self.t

    def subst(self, sid, lin):
        for i, q in self.t:
            if i == sid:
                rest = Lin(self.c, tuple(x for x in self.t if x[0] != sid))
                return rest.add(lin, q)
        return self

    def coef(self, sid):
        for i, q in self.t:
            if i == sid:
                return q
        return 0


ZERO = Lin(0)
ONE = Lin(1)


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, Sym):
        return Lin(0, ((x.id, 1),))
    return Lin(x)


# ------------------------------------------------------------ conditions
# True | False | ('atom', Lin(no const, normalised), iset) | ('and',a,b) | ('or',a,b) | ('not',a)
def atom(lin, s):
    """lin in s"""
    if not lin.t:
        return any(lo <= lin.c <= hi for lo, hi in s)
    s = is_shift(s, -lin.c)
    t = lin.t
    g = 0
    for _, q in t:
        g = gcd(g, abs(q))
    if g > 1:
        t = tuple((i, q // g) for i, q in t)
        ns = []
        for lo, hi in s:
            l2 = lo if lo == NINF else -((-lo) // g)
            h2 = hi if hi == INF else hi // g
            if l2 <= h2:
                ns.append((l2, h2))
        s = is_norm(ns)
    if t[0][1] < 0:
        t = tuple((i, -q) for i, q in t)
        s = is_scale(s, -1)
    if s == EMPTY:
        return False
    if s == TOP:
        return True
    return ('atom', Lin(0, t), s)


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    if c[0] == 'atom':
        return atom(c[1], is_not(c[2]))
    if c[0] == 'and':
        return c_or(c_not(c[1]), c_not(c[2]))
    if c[0] == 'or':
        return c_and(c_not(c[1]), c_not(c[2]))
    return ('not', c)


def c_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if a == b:
        return a
    if a[0] == 'atom' and b[0] == 'atom' and a[1] == b[1]:
        return atom(a[1], is_and(a[2], b[2]))
    return ('and', a, b)


def c_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    if a == b:
        return a
    if a[0] == 'atom' and b[0] == 'atom' and a[1] == b[1]:
        return atom(a[1], is_or(a[2], b[2]))
    return ('or', a, b)


def fmt_cond(c):
    if c is True or c is False:
        return str(c)
    if c[0] == 'atom':
        s = c[2]
        def b(x):
            return '-inf' if x <= NINF else ('inf' if x >= INF else str(x))
        return '%r in {%s}' % (c[1], ','.join(b(lo) if lo == hi else b(lo) + '..' + b(hi) for lo, hi in s))
    if c[0] == 'not':
        return '!(%s)' % fmt_cond(c[1])
    return '(%s %s %s)' % (fmt_cond(c[1]), c[0], fmt_cond(c[2]))


def cond_syms(c):
    if c is True or c is False:
        return set()
    if c[0] == 'atom':
        return bases_of(c[1])
    s = set()
    for x in c[1:]:
        s |= cond_syms(x)
    return s


ENUM_LIMIT = 1024


class Store:
    """form (tuple of (symid,coef)) -> interval set"""
    __slots__ = ('d', 'bot')

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self.bot = False

    def copy(self):
        s = Store(dict(self.d))
        s.bot = self.bot
        return s

    # -- queries
    def sym_set(self, sid):
        s = self.d.get(((sid, 1),))
        y = Sym.table[sid]
        if s is not None:
            return s
        return ((y.lo, y.hi),)

    def rng(self, lin):
        """hull of lin"""
        lo = hi = lin.c
        if not lin.t:
            return lo, hi
        for i, q in lin.t:
            s = self.d.get(((i, 1),))
            if s is None:
                y = Sym.table[i]
                a, b = y.lo, y.hi
            else:
                a, b = s[0][0], s[-1][1]
            if q < 0:
                a, b = b, a
            if lo > NINF:
                lo = NINF if abs(a) >= INF else lo + q * a
            if hi < INF:
                hi = INF if abs(b) >= INF else hi + q * b
        if len(lin.t) > 1:
            c = atom_key(lin)
            f, g, sg = c
            s = self.d.get(f)
            if s is not None:
                a, b = s[0][0], s[-1][1]
                if sg < 0:
                    a, b = -b, -a
                la = NINF if abs(a) >= INF else lin.c + g * a
                hb = INF if abs(b) >= INF else lin.c + g * b
                lo = max(lo, la)
                hi = min(hi, hb)
            else:
                # combine with one stored multi-symbol form: lin = k*form + rest
                for ff, ss in self.d.items():
                    if len(ff) < 2:
                        continue
                    q0 = lin.coef(ff[0][0])
                    if not q0 or q0 % ff[0][1]:
                        continue
                    k = q0 // ff[0][1]
                    rest = lin.add(Lin(0, ff), -k)
                    if len(rest.t) >= len(lin.t):
                        continue
                    a, b = ss[0][0], ss[-1][1]
                    if k < 0:
                        a, b = b, a
                    rl, rh = self._hull(rest)
                    if abs(a) < INF and rl > NINF:
                        lo = max(lo, rl + k * a)
                    if abs(b) < INF and rh < INF:
                        hi = min(hi, rh + k * b)
        return lo, hi

    def _hull(self, lin):
        lo = hi = lin.c
        for i, q in lin.t:
            s = self.d.get(((i, 1),))
            if s is None:
                y = Sym.table[i]
                a, b = y.lo, y.hi
            else:
                a, b = s[0][0], s[-1][1]
            if q < 0:
                a, b = b, a
            if lo > NINF:
                lo = NINF if abs(a) >= INF else lo + q * a
            if hi < INF:
                hi = INF if abs(b) >= INF else hi + q * b
        return lo, hi

    def form_set(self, form):
        """value set of a normalised form"""
        s = self.d.get(form)
        if len(form) == 1:
            if s is None:
                y = Sym.table[form[0][0]]
                return ((y.lo, y.hi),)
            return s
        h = self.rng(Lin(0, form))
        hs = (h,) if h[0] <= h[1] else EMPTY
        return is_and(s, hs) if s is not None else hs

    def value_set(self, lin):
        """exact-ish set of values of lin (single symbol coefficient +-1) or hull"""
        if not lin.t:
            return ((lin.c, lin.c),)
        if len(lin.t) == 1 and abs(lin.t[0][1]) == 1:
            return is_shift(is_scale(self.sym_set(lin.t[0][0]), lin.t[0][1]), lin.c)
        c, g, sg = atom_key(lin)
        if g == 1:
            return is_shift(is_scale(self.form_set(c), sg), lin.c)
        return (self.rng(lin),)

    def const(self, lin):
        if not lin.t:
            return lin.c
        lo, hi = self.rng(lin)
        return lo if lo == hi else None

    def _enum_base(self, lin):
        """if all symbols of lin derive from one base symbol with a small domain
        (and at least one is a derived term) return that base"""
        bs = set()
        der = False
        for i, _ in lin.t:
            y = Sym.table[i]
            bs |= y.bases
            if y.expr is not None:
                der = True
            if len(bs) > 1:
                # constants in the store do not count
                bs = {b for b in bs if is_size(self.sym_set(b)) > 1}
                if len(bs) > 1:
                    return None
        if not der or len(bs) != 1:
            return None
        b = next(iter(bs))
        if is_size(self.sym_set(b)) <= ENUM_LIMIT:
            return b
        return None

    def decide(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'atom':
            vs = self.form_set(c[1].t)
            if is_subset(vs, c[2]):
                return True
            if is_and(vs, c[2]) == EMPTY:
                return False
            lin = c[1]
            if any(Sym.table[i].expr is not None for i, _ in lin.t):
                b = self._enum_base(lin)
                if b is not None:
                    t, f = self._table(lin, c[2], b)
                    if f is not None:
                        if not f:
                            return True
                        if not t:
                            return False
                # b2i atoms
                if len(lin.t) == 1:
                    y = Sym.table[lin.t[0][0]]
                    if y.expr[0] == 'b2i':
                        return self.decide(b2i_cond(c, y))
            return None
        if k == 'not':
            r = self.decide(c[1])
            return None if r is None else not r
        if k == 'and':
            a = self.decide(c[1])
            if a is False:
                return False
            b = self.decide(c[2])
            if b is False:
                return False
            if a and b:
                return True
            if a is None:
                sts = self.assume(c[1], True)
                if sts and all(s.decide(c[2]) is False for s in sts):
                    return False
            return None
        if k == 'or':
            return_not = self.decide(('and', c_not(c[1]), c_not(c[2])))
            return None if return_not is None else not return_not
        return None

    def _table(self, lin, s, b):
        t, f = [], []
        for v in is_values(self.sym_set(b)):
            x = eval_lin(lin, {b: v}, self)
            if x is None:
                return None, None
            (t if any(lo <= x <= hi for lo, hi in s) else f).append(v)
        return t, f

    # -- refinement: list of stores whose union is self /\ c == truth
    def assume(self, c, truth=True):
        if not truth:
            c = c_not(c)
        if c is True:
            return [self]
        if c is False:
            return []
        k = c[0]
        if k == 'atom':
            lin = c[1]
            if any(Sym.table[i].expr is not None for i, _ in lin.t):
                if len(lin.t) == 1:
                    y = Sym.table[lin.t[0][0]]
                    if y.expr[0] == 'b2i':
                        return self.assume(b2i_cond(c, y), True)
                b = self._enum_base(lin)
                if b is not None:
                    t, f = self._table(lin, c[2], b)
                    if t is not None:
                        if not t:
                            return []
                        n = self.copy()
                        n._set(((b, 1),), is_norm([(v, v) for v in t]))
                        return [] if n.bot else [n]
            vs = self.form_set(lin.t)
            ns = is_and(vs, c[2])
            if ns == EMPTY:
                return []
            if ns == vs and (lin.t in self.d):
                return [self]
            n = self.copy()
            n._set(lin.t, ns)
            return [] if n.bot else [n]
        if k == 'and':
            out = []
            for s in self.assume(c[1], True):
                out += s.assume(c[2], True)
            return out
        if k == 'or':
            d = self.decide(c[1])
            if d is True:
                return [self]
            if d is False:
                return self.assume(c[2], True)
            d2 = self.decide(c[2])
            if d2 is False:
                return self.assume(c[1], True)
            out = self.assume(c[1], True)
            for s in self.assume(c_not(c[1]), True):
                out += s.assume(c[2], True)
            return out
        return [self]

    def _set(self, form, s):
        if s == EMPTY:
            self.bot = True
            return
        self.d[form] = s
        # propagate bounds
        if len(form) > 1:
            self._prop(form, 0)
        else:
            sid = form[0][0]
            for f in [f for f in self.d if len(f) > 1]:
                if any(i == sid for i, _ in f):
                    fs = self.form_set(f)
                    if fs == EMPTY:
                        self.bot = True
                        return
                    self._prop(f, 0)
                    if self.bot:
                        return

    def _prop(self, form, depth):
        s = self.form_set(form)
        if s == EMPTY:
            self.bot = True
            return
        lo, hi = s[0][0], s[-1][1]
        for i, q in form:
            rest = Lin(0, tuple(x for x in form if x[0] != i))
            rl, rh = self._hull(rest)
            # q*x in [lo-rh, hi-rl]
            a = NINF if lo <= NINF or rh >= INF else lo - rh
            b = INF if hi >= INF or rl <= NINF else hi - rl
            if q < 0:
                a, b = -b, -a
            aq = abs(q)
            xl = NINF if a <= NINF else -((-a) // aq)
            xh = INF if b >= INF else b // aq
            cur = self.sym_set(i)
            n = is_and(cur, ((xl, xh),)) if xl <= xh else EMPTY
            if n == EMPTY:
                self.bot = True
                return
            if n != cur:
                self.d[((i, 1),)] = n
                if depth < 3:
                    for f in [f for f in self.d if len(f) > 1 and f != form]:
                        if any(j == i for j, _ in f):
                            self._prop(f, depth + 1)
                            if self.bot:
                                return

    def entails(self, c):
        return self.decide(c) is True

    def eq(self, a, b):
        if a == b:
            return True
        d = a.add(b, -1)
        if not d.t:
            return d.c == 0
        lo, hi = self.rng(d)
        if lo == hi == 0:
            return True
        # terms of one finite symbol
        return self.decide(atom(d, ((0, 0),))) is True

    def forget(self, sids):
        for f in [f for f in self.d if any(i in sids for i, _ in f)]:
            del self.d[f]


def atom_key(lin):
    g = 0
    for _, q in lin.t:
        g = gcd(g, abs(q))
    sg = 1 if lin.t[0][1] > 0 else -1
    t = lin.t if (g == 1 and sg == 1) else tuple((i, q // g * sg) for i, q in lin.t)
    return t, g, sg


def b2i_cond(c, y):
    """c is an atom over the 0/1 symbol y = b2i(cond)"""
    inner = y.expr[1][0]
    has1 = any(lo <= 1 <= hi for lo, hi in c[2])
    has0 = any(lo <= 0 <= hi for lo, hi in c[2])
    if has1 and has0:
        return True
    if has1:
        return inner
    if has0:
        return c_not(inner)
    return False


def eval_lin(lin, env, store):
    v = lin.c
    for i, q in lin.t:
        x = eval_sym(i, env, store)
        if x is None:
            return None
        v += q * x
    return v


def eval_cond(c, env, store):
    if c is True or c is False:
        return c
    if c[0] == 'atom':
        x = eval_lin(c[1], env, store)
        if x is None:
            return None
        return any(lo <= x <= hi for lo, hi in c[2])
    if c[0] == 'not':
        r = eval_cond(c[1], env, store)
        return None if r is None else not r
    a = eval_cond(c[1], env, store)
    b = eval_cond(c[2], env, store)
    if a is None or b is None:
        return None
    return (a and b) if c[0] == 'and' else (a or b)


def eval_sym(sid, env, store):
    if sid in env:
        return env[sid]
    y = Sym.table[sid]
    if y.expr is None:
        s = store.sym_set(sid)
        if len(s) == 1 and s[0][0] == s[0][1]:
            return s[0][0]
        return None
    op, args = y.expr
    f = FOLD.get(op)
    if f is None:
        return None
    vs = []
    for a in args:
        if isinstance(a, Lin):
            x = eval_lin(a, env, store)
        elif isinstance(a, int) and not isinstance(a, bool):
            x = a
        else:
            x = eval_cond(a, env, store)
        if x is None:
            return None
        vs.append(x)
    return f(*vs)


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


FOLD = {
    'udiv': lambda a, b: a // b if b else None,
    'urem': lambda a, b: a % b if b else None,
    'sdiv': lambda a, b: _tdiv(a, b) if b else None,
    'srem': lambda a, b: a - _tdiv(a, b) * b if b else None,
    'and': lambda a, b: a & b,
    'or': lambda a, b: a | b,
    'xor': lambda a, b: a ^ b,
    'shl': lambda a, b: a << b if 0 <= b < 128 else None,
    'lshr': lambda a, b: a >> b if 0 <= b < 128 else None,
    'ashr': lambda a, b: a >> b if 0 <= b < 128 else None,
    'mul': lambda a, b: a * b,
    'wrapu': lambda a, w: a & ((1 << w) - 1),
    'wraps': lambda a, w: ((a + (1 << (w - 1))) & ((1 << w) - 1)) - (1 << (w - 1)),
    'b2i': lambda c: 1 if c else 0,
    'ite': lambda c, a, b: a if c else b,
    'ceillog2': lambda a: (a - 1).bit_length() if a > 0 else 0,
    'min': min,
    'max': max,
}
