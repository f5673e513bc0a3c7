"""Function contracts: the abstract interpreter on one function, from a
described entry state, with an obligation at every return (and at every
memory access).  Used for the parts of the library that are not syntax
parsers: bit reader, framing, unescaping, helpers."""
import interp as I
import models as M
import ir
import spec
from dom import *


class Obs(I.Observer):
    """obligations: memory (DEREF, BOUND, INDEX), arithmetic (ARITH), aborts
    (ABORT) and the contract (POST)"""

    def __init__(self, name, post=None, handlers=None, lib=None):
        self.name = name
        self.post = post
        self.handlers = handlers or {}
        self.violations = []
        self.undecided = []
        self.stats = {'returns': 0, 'accesses': 0, 'arith': 0, 'calls': 0, 'iterations': 0}
        self.lib = lib
        self.apart_n = 400
        self.nomerge = True
        self.checked = set()
        self.step = None          # loop step obligation
        self.on_event = None

    def report(self, m, st, cat, key, msg, ins=None, soft=None):
        file, line, fn = m.where(st, ins)
        self.violations.append({'cat': cat, 'key': key, 'msg': msg, 'file': file, 'line': line, 'fn': fn, 'tags': dict(st.tags),
                                'imprecise': (st.aux.get('_imprecise', 0) or st.aux.get('_soft', 0)) if soft is None else soft, 'spec': self.name})

    def softness(self, st):
        # an iteration that repeats itself does so whatever was joined before it
        return {'soft': st.aux.get('_imprecise', 0)}

    def retract(self, cid):
        self.violations = [v for v in self.violations if cid not in v['tags']]

    def apart(self, st):
        return self.apart_n

    def aux_mergeable(self, a, b):
        if self.nomerge:
            return False
        return super().aux_mergeable(a, b)

    def force_merge(self, st):
        return not self.nomerge

    # ---- memory
    def bound(self, m, st, p, n, ins, info):
        """access of n bytes at raw pointer p"""
        self.stats['accesses'] += 1
        lim = info.get('bound')
        if lim is None:
            return
        off = p.idx.scale(info.get('esize') or 1).addc(p.off)
        lo = st.store.rng(off)[0]
        d = lim.add(off, -1).addc(-n)
        if lo < 0:
            self.report(m, st, 'BOUND', ('low', info['name']), 'accesses %s at %r, which may be negative' % (info['name'], off), ins)
        elif st.store.rng(d)[0] < 0:
            self.report(m, st, 'BOUND', ('high', info['name']), 'accesses %s at %r, not shown to be below %r' % (info['name'], off, lim), ins)

    def raw_load(self, m, st, p, ty, ins, info):
        n = ty[1] // 8 if ty[0] == 'i' else 8
        self.bound(m, st, p, n, ins, info)
        c = st.mem.get(p.obj, {})
        k = p.idx.addc(p.off)
        v = c.get(k)
        if v is not None:
            return v
        for k2 in c:
            if isinstance(k2, Lin) and st.store.eq(k2, k):
                return c[k2]
        if ty[0] == 'i' and n == 1:
            return L(sym('raw(%s,%r)' % (info['name'], k), 0, 255))
        return m.unknown(st, ty, ins, 'raw:%s[%r]' % (info['name'], k))

    def raw_store(self, m, st, p, v, ins, info):
        self.bound(m, st, p, 1, ins, info)
        c = st.wcells(p.obj)
        k = p.idx.addc(p.off)
        for k2 in list(c):
            if isinstance(k2, Lin) and k2 != k:
                d = st.store.decide(atom(k2.add(k, -1), ((0, 0),)))
                if d is True:
                    k = k2
                elif d is None:
                    del c[k2]
        if I.is_cond(v):
            v = m.int(st, v)
        c[k] = v

    def deref(self, m, st, p, ins, kind):
        self.stats['accesses'] += 1
        if p.obj is None:
            self.report(m, st, 'DEREF', ('null',), 'dereferences a null pointer', ins)
        elif st.store.decide(m.nonnull(st, p)) is not True:
            self.report(m, st, 'DEREF', ('maybe', str(m.objinfo.get(p.obj, {}).get('sym') or p.obj)), 'dereferences %s which may be null' % (m.objinfo.get(p.obj, {}).get('sym') or p.obj,), ins)

    def iter_deref(self, m, st, it, ins):
        self.stats['accesses'] += 1
        if st.store.decide(M.found_cond(it)) is not True:
            self.report(m, st, 'DEREF', ('iter', it.map), 'dereferences a lookup in %s that may have failed' % it.map, ins)

    def map_index(self, m, st, ins, mn, k, meth, dem):
        if meth == 'at':
            c = atom(L(sym('found(%s,%r)' % (mn, k), 0, 1)), ((1, 1),))
            if st.store.decide(c) is not True:
                self.report(m, st, 'DEREF', ('at', mn), 'lookup in %s may throw' % mn, ins)

    def index(self, m, st, p, v, ins, kind):
        self.stats['accesses'] += 1
        if v is None:
            return
        d = v.len.add(p.idx, -1)
        if st.store.rng(d)[0] < 1 and st.store.decide(atom(d, ((1, INF),))) is not True:
            self.report(m, st, 'INDEX', ('oob',), 'index %r not shown to be below the vector length %r' % (p.idx, v.len), ins)
        elif st.store.rng(p.idx)[0] < 0:
            self.report(m, st, 'INDEX', ('neg',), 'index %r may be negative' % (p.idx,), ins)

    # ---- arithmetic
    divshift = spec.SpecObserver.divshift
    shift = spec.SpecObserver.shift
    arith = spec.SpecObserver.arith

    @property
    def sites(self):
        return _Sites

    def abort(self, m, st, ins, name):
        self.report(m, st, 'ABORT', ('abort', name), 'reaches %s' % name, ins)

    # ---- calls, returns
    def call(self, m, st, ins, name, dem, args):
        self.stats['calls'] += 1
        q = M.strip_templates(dem)
        h = self.handlers.get(q)
        if h is not None:
            return h(self, m, st, ins, dem, args)
        return 'nomodel'

    def returned(self, m, st, v, ins, depth=0):
        if not depth:
            self.stats['returns'] += 1
        if depth > 6:
            self.undecided.append('%s: result %r' % (self.name, v))
            return
        if self.post is not None:
            try:
                self.post(self, m, st, v, ins)
            except I.NeedSplit as e:
                for c in e.conds:
                    for s in st.store.assume(c, True):
                        n = st.copy()
                        n.store = s
                        self.returned(m, n, v, ins, depth + 1)

    def fail(self, m, st, key, msg, ins=None, soft=None):
        self.report(m, st, 'POST', key, msg, ins, soft)


class _Any:
    def __getitem__(self, k):
        return set()


_Sites = _Any()


class Anchor(Exception):
    pass


def find(prog, q, sig=None, exact=True):
    """definitions of qualified name q whose demangled form contains sig"""
    out = []
    for n, d in prog.demangled.items():
        if M.strip_templates(d) == q and (sig is None or sig in d):
            f = prog.fn.get(n)
            if f is not None:
                out.append(f)
    if len(out) != 1:
        raise Anchor('%s(%s): %d definitions' % (q, sig or '', len(out)))
    return out[0]


class Run:
    """one analysis: r = Run(prog, fn, obs); r.arg(...)...; r.go()"""

    def __init__(self, prog, fn, obs, bitmode=False, machine=I.Machine):
        self.prog, self.fn, self.obs = prog, fn, obs
        self.m = machine(prog, obs)
        obs.m = self.m
        self.m.bitmode = bitmode
        fn.parse()
        self.st = I.State()
        self.ptys = spec.param_types(prog.dem(fn.name)) if '(' in prog.dem(fn.name) else []
        self.params = list(fn.params)
        self.regs = {}
        self.sret = None
        obs.ret_slot = None
        if self.params and 'sret' in self.params[0][2]:
            oid = ('ret',)
            self.m.objinfo[oid] = {'kind': 'ret'}
            self.st.mem[oid] = {}
            self.st.own.add(oid)
            obs.ret_slot = self.sret = I.Ptr(oid)
            self.regs[self.params[0][1]] = self.sret
            self.params = self.params[1:]

    def obj(self, name, struct, fields=None, **info):
        """object with the given cells ({offset: value})"""
        oid = ('s', name)
        self.m.objinfo[oid] = dict({'kind': 'sym', 'sym': name, 'struct': struct}, **info)
        self.st.mem[oid] = dict(fields or {})
        self.st.own.add(oid)
        return I.Ptr(oid)

    def raw(self, name, bound, esize=1):
        """byte buffer of `bound` bytes"""
        oid = ('r', name)
        self.m.objinfo[oid] = {'kind': 'raw', 'array': True, 'esize': esize, 'name': name, 'bound': bound}
        self.st.mem[oid] = {}
        self.st.own.add(oid)
        return I.Ptr(oid)

    def cell(self, name, v=None):
        oid = ('c', name)
        self.m.objinfo[oid] = {'kind': 'cell', 'name': name}
        self.st.mem[oid] = {} if v is None else {0: v}
        self.st.own.add(oid)
        return I.Ptr(oid)

    def assume(self, c):
        r = self.st.store.assume(c, True)
        self.st.store = r[0]

    def go(self, *args):
        if len(args) != len(self.params):
            raise Anchor('%s: %d parameters' % (self.fn.name, len(self.params)))
        for (ty, n, at), v in zip(self.params, args):
            self.regs[n] = v
        self.st.frames = [I.Frame(self.fn, self.fn.order[0], 0, self.regs, None, None, None, 0)]
        self.m.visited.add((self.fn.name, self.fn.order[0]))
        self.m.run(self.st)
        return self.obs


class Checks:
    """a list of contract runs"""

    def __init__(self, prog):
        self.prog = prog
        self.runs = []        # (label, obs)
        self.undecided = []
        self.missing = []

    def do(self, label, f):
        try:
            o = f()
            for x in (o if isinstance(o, list) else [o]):
                self.runs.append((label, x))
        except Anchor as e:
            self.missing.append(str(e))
        except Exception as e:
            import traceback
            self.undecided.append('%s: %s %s @ %s' % (label, type(e).__name__, str(e)[:160], traceback.format_exc().strip().split('\n')[-3].strip()))


def main(run):
    import sys, time
    sys.setrecursionlimit(20000)
    prog = ir.load_program()
    t = time.time()
    c = run(prog, sys.argv[1] if len(sys.argv) > 1 else 'quick')
    seen = set()
    n = {}
    for l, o in c.runs:
        n[l] = n.get(l, 0) + 1
        for v in o.violations:
            k = (v['cat'], v['key'])
            if (l, k) in seen:
                continue
            seen.add((l, k))
            print(l, v['cat'], v['key'], v['msg'][:400], v['file'], v['line'], v['imprecise'])
        for u in o.undecided:
            print('UND', l, u)
    for u in c.undecided + c.missing:
        print('UND', u)
    print(n, '%.1fs' % (time.time() - t))
