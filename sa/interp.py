"""Abstract interpreter over LLVM IR (fixpoint over the interprocedural CFG).

Domain: symbolic equalities (value numbering) + linear forms + interval sets,
partitioned by (call chain, block, observer position).  States are joined at
CFG merges; loops are solved with affine generalisation + widening/narrowing
on a loop-entry context.  It never runs the program under analysis and never
queries a solver.
"""
import heapq, itertools, re, time
from dom import *
import ir


class Undecided(Exception):
    """construct outside the supported fragment"""


class NeedSplit(Exception):
    def __init__(self, conds):
        self.conds = conds


class Ptr:
    __slots__ = ('obj', 'idx', 'off', 'nn', '_h')

    def __init__(self, obj, idx=ZERO, off=0, nn=None):
        self.obj = obj; self.idx = idx; self.off = off; self.nn = nn
        self._h = hash((obj, idx, off, nn))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self._h == o._h and self.obj == o.obj and self.idx == o.idx and self.off == o.off and self.nn == o.nn

    def __repr__(self):
        return 'Ptr(%s%s%s%s)' % (self.obj, '' if self.idx == ZERO else '[%r]' % self.idx, '+%d' % self.off if self.off else '', '?' if self.nn is not None else '')

    def plus(self, off):
        return Ptr(self.obj, self.idx, self.off + off, self.nn)


NULL = Ptr(None)


class Vec:
    """abstract std::vector: length, provenance items ((key,count),...), last write, symbolic name"""
    __slots__ = ('len', 'items', 'last', 'sname', '_h')

    def __init__(self, ln, items=(), last=None, sname=None):
        self.len = ln; self.items = items; self.last = last; self.sname = sname
        self._h = hash((ln, items, last, sname))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Vec) and self.len == o.len and self.items == o.items and self.last == o.last and self.sname == o.sname

    def __repr__(self):
        return 'Vec(len=%r,items=%r,last=%r,%s)' % (self.len, self.items, self.last, self.sname)


class Iter:
    """map iterator"""
    __slots__ = ('map', 'key', 'found', '_h')

    def __init__(self, m, key, found):
        self.map = m; self.key = key; self.found = found
        self._h = hash((m, key, found))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Iter) and (self.map, self.key, self.found) == (o.map, o.key, o.found)

    def __repr__(self):
        return 'Iter(%s,%s,%s)' % (self.map, self.key, self.found)


class Unk:
    """value about which nothing is known (non integer)"""
    __slots__ = ('tag',)

    def __init__(self, tag=''):
        self.tag = tag

    def __hash__(self):
        return hash(self.tag)

    def __eq__(self, o):
        return isinstance(o, Unk) and self.tag == o.tag

    def __repr__(self):
        return 'Unk(%s)' % self.tag


class Blob:
    """a small struct passed in an integer register: ((offset, value), ...)"""
    __slots__ = ('cells', '_h')

    def __init__(self, cells):
        self.cells = tuple(cells)
        self._h = hash(self.cells)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Blob) and self.cells == o.cells

    def __repr__(self):
        return 'Blob%r' % (self.cells,)


def is_cond(v):
    return v is True or v is False or (isinstance(v, tuple) and v and v[0] in ('atom', 'and', 'or', 'not'))


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'regs', 'prev', 'dest', 'hook', 'depth')

    def __init__(self, fn, block, idx, regs, prev, dest, hook, depth):
        self.fn = fn; self.block = block; self.idx = idx; self.regs = regs; self.prev = prev
        self.dest = dest; self.hook = hook; self.depth = depth

    def copy(self):
        return Frame(self.fn, self.block, self.idx, dict(self.regs), self.prev, self.dest, self.hook, self.depth)


class State:
    __slots__ = ('frames', 'mem', 'own', 'store', 'aux', 'loops', 'tags', 'und', 'trace')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.store = Store()
        self.aux = {}       # observer state: hashable values only
        self.loops = {}     # (depth,fn,head) -> ctx
        self.tags = {}      # ctxid -> version
        self.und = 0        # undecided branches taken so far
        self.trace = ()

    def copy(self):
        s = State()
        s.frames = [f for f in self.frames]
        s.frames[-1] = s.frames[-1].copy()
        # caller frames are copied lazily on return
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.store = self.store
        s.aux = dict(self.aux)
        s.loops = dict(self.loops)
        s.tags = dict(self.tags)
        s.und = self.und
        s.trace = self.trace
        return s

    @property
    def top(self):
        return self.frames[-1]

    # memory
    def cells(self, obj):
        return self.mem.get(obj)

    def wcells(self, obj):
        c = self.mem.get(obj)
        if c is None:
            c = {}
            self.mem[obj] = c
            self.own.add(obj)
            return c
        if obj not in self.own:
            c = dict(c)
            self.mem[obj] = c
            self.own.add(obj)
        return c


SPEC = ('spec',)   # pseudo object: observer variables (joined like memory)


def vrange(w, signed):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)


class FnInfo:
    """per function static info: WTO order, loops, liveness"""

    def __init__(self, fn):
        self._stale, self._control = {}, {}
        fn.parse()
        self.fn = fn
        self.succ = {b: fn.succs(b) for b in fn.order}
        self.pred = {b: [] for b in fn.order}
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        self._wto()
        self._liveness()

    def _wto(self):
        """Bourdoncle weak topological order -> index per block, loop heads with [start,end]"""
        succ = self.succ
        dfn = {b: 0 for b in succ}
        self.num = 0
        stack = []
        INFN = 10 ** 9

        def visit(v, out):
            stack.append(v)
            self.num += 1
            dfn[v] = head = self.num
            loop = False
            for s in succ[v]:
                if dfn[s] == 0:
                    m = visit(s, out)
                else:
                    m = dfn[s]
                if m <= head:
                    head = m
                    loop = True
            if head == dfn[v]:
                dfn[v] = INFN
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    out.insert(0, component(v))
                else:
                    out.insert(0, v)
            return head

        def component(v):
            o = []
            for s in succ[v]:
                if dfn[s] == 0:
                    visit(s, o)
            return [v] + o
        import sys
        sys.setrecursionlimit(100000)
        order = []
        visit(self.fn.order[0], order)
        self.index = {}
        self.loop_end = {}
        self.loop_body = {}
        n = itertools.count()

        def number(lst, is_comp):
            members = []
            for e in lst:
                if isinstance(e, list):
                    members += number(e, True)
                else:
                    self.index[e] = next(n)
                    members.append(e)
            if is_comp:
                h = lst[0]
                self.loop_end[h] = max(self.index[m] for m in members)
                self.loop_body[h] = set(members)
            return members
        number(order, False)
        for b in self.succ:
            if b not in self.index:
                self.index[b] = 10 ** 6

    def _liveness(self):
        fn = self.fn
        use = {}
        deff = {}
        # scalar allocas that only appear as load/store address or call args
        allocas = {}
        for i in fn.blocks[fn.order[0]]:
            if i.op == 'alloca' and i.ty[0] in ('i', 'ptr', 'f'):
                allocas[i.res] = True
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.op == 'alloca':
                    continue
                for o in operands(i):
                    if o[0] == 'l' and o[1] in allocas:
                        if i.op == 'load':
                            continue
                        if i.op == 'store' and i.a[1] == o and i.a[0] != o:
                            continue
                        if i.op == 'call':
                            continue
                        allocas[o[1]] = False
        self.scalars = {a for a, ok in allocas.items() if ok}
        # ---- register + alloca-cell liveness
        phiuse = {b: set() for b in fn.order}
        for b in fn.order:
            u, d = set(), set()
            for i in fn.blocks[b]:
                if i.op == 'phi':
                    for v, l in i.a:
                        if v[0] == 'l':
                            phiuse[l].add(v[1])
                    continue
                for r, isdef in cell_effects(i, self.scalars):
                    if isdef:
                        d.add(('cell', r))
                    elif ('cell', r) not in d:
                        u.add(('cell', r))
                for o in operands(i):
                    if o[0] == 'l' and o[1] not in d:
                        u.add(o[1])
                if i.res is not None:
                    d.add(i.res)
            use[b] = u; deff[b] = d
        live = {b: set() for b in fn.order}
        phis = {b: {i.res for i in fn.blocks[b] if i.op == 'phi'} for b in fn.order}
        self.phis = phis
        changed = True
        while changed:
            changed = False
            for b in reversed(fn.order):
                out = set(phiuse[b])
                for s in self.succ[b]:
                    out |= live[s]
                n = (use[b] | (out - deff[b])) - phis[b]
                if n != live[b]:
                    live[b] = n
                    changed = True
        self.live = live
        self.live_phi = phiuse
        self.allocas = {i.res for b in fn.order for i in fn.blocks[b] if i.op == 'alloca'}
        self._la = {}

    def stale(self, block):
        """locals that only the body of loop `block` uses: what they hold at its head
        is left from an earlier iteration"""
        r = self._stale.get(block)
        if r is None:
            body, out = self.loop_body[block], set()
            for b, l in self.fn.blocks.items():
                if b not in body:
                    for i in l:
                        out.update(v[1] for v in operands(i) if v and v[0] == 'l')
            r = self._stale[block] = {a for a in self.allocas if a not in out}
        return r

    def control(self, block):
        """names whose value can reach a branch inside loop `block`"""
        r = self._control.get(block)
        if r is not None:
            return r
        ins = [i for b in self.loop_body[block] for i in self.fn.blocks[b]]
        r = set()
        for i in ins:
            if i.op in ('cbr', 'switch', 'invoke', 'ret', 'br_ind'):
                r.update(v[1] for v in operands(i) if v and v[0] == 'l')
        n = -1
        while n != len(r):
            n = len(r)
            for i in ins:
                ops = [v[1] for v in operands(i) if v and v[0] == 'l']
                if i.res is not None and i.res in r:
                    r.update(ops)
                if i.op == 'store':
                    if i.a[1][0] == 'l' and i.a[1][1] in r:
                        r.update(ops)
                elif i.op in ('gep', 'cast', 'phi', 'select') or i.op == 'load' and i.ty == ir.PTR:
                    if any(o in r for o in ops) and i.res is not None:
                        r.add(i.res)
                elif i.op not in ('load', 'icmp', 'fcmp', 'bin', 'cbr', 'switch', 'alloca', 'freeze', 'extractvalue'):
                    if any(o in r for o in ops):
                        r.update(ops)
                        if i.res is not None:
                            r.add(i.res)
        self._control[block] = r
        return r

    def live_at(self, block, idx):
        """registers / scalar cells live before instruction idx of block"""
        k = (block, idx)
        r = self._la.get(k)
        if r is not None:
            return r
        fn = self.fn
        out = set(self.live_phi[block])
        for s in self.succ[block]:
            out |= self.live[s]
        bl = fn.blocks[block]
        for i in reversed(bl[idx:]):
            if i.op == 'phi':
                continue
            if i.res is not None:
                out.discard(i.res)
            eff = cell_effects(i, self.scalars)
            for c, isdef in eff:
                if isdef:
                    out.discard(('cell', c))
            for c, isdef in eff:
                if not isdef:
                    out.add(('cell', c))
            for o in operands(i):
                if o[0] == 'l':
                    out.add(o[1])
        if idx == 0:
            out |= {i.res for i in bl if i.op == 'phi'}
        self._la[k] = out
        return out


READ_FNS = re.compile(r'^_ZN7h264nal9BitBuffer(8ReadBitsEmR[jm]|21ReadExponentialGolombERj|27ReadSignedExponentialGolombERi|9ReadUInt8ERh|10ReadUInt16ERt|10ReadUInt32ERj|8PeekBitsEmR[jm])$')


def operands(i):
    op = i.op
    if op == 'load':
        return [i.a[0]]
    if op == 'store':
        return [i.a[0], i.a[1]]
    if op == 'gep':
        return [v for _, v in i.a]
    if op in ('icmp', 'fcmp', 'bin'):
        return [i.a[1], i.a[2]]
    if op == 'cast':
        return [i.a[2]]
    if op == 'cbr':
        return [i.a[0]]
    if op == 'switch':
        return [i.a[0]]
    if op == 'ret':
        return [i.a[0]] if i.a[0] else []
    if op == 'select':
        return list(i.a)
    if op == 'extractvalue':
        return [i.a[0]]
    if op == 'insertvalue':
        return [i.a[0], i.a[1]]
    if op in ('freeze', 'fneg'):
        return [i.a[0]]
    if op == 'atomicrmw':
        return [i.a[1], i.a[2]]
    if op == 'call':
        r = [v for _, v, _ in i.a[1]]
        if i.a[0][0] == 'l':
            r.append(i.a[0])
        return r
    if op == 'alloca':
        return [i.a[0]] if i.a[0] else []
    if op == 'phi':
        return [v for v, _ in i.a]
    return []


def cell_effects(i, scalars):
    """[(alloca, isdef)]"""
    out = []
    if i.op == 'load' and i.a[0][0] == 'l' and i.a[0][1] in scalars:
        out.append((i.a[0][1], False))
    elif i.op == 'store':
        if i.a[1][0] == 'l' and i.a[1][1] in scalars:
            out.append((i.a[1][1], True))
    elif i.op == 'call':
        isread = i.a[0][0] == 'g' and READ_FNS.match(i.a[0][1])
        args = i.a[1]
        for k, (t, v, at) in enumerate(args):
            if v[0] == 'l' and v[1] in scalars:
                if isread and k == len(args) - 1:
                    out.append((v[1], True))
                else:
                    out.append((v[1], False))
    return out


class LoopCtx:
    __slots__ = ('chain', 'id', 'entry', 'head', 'back', 'version', 'block', 'depth', 'fnname', 'dropped', 'rounds', 'widened', 'wprio', 'pc', 'file_line', 'guard')

    def __lt__(self, o):
        return self.id < o.id


SOFT = re.compile(r'(\?|w\d+:|j:|undef)')
KEPT = re.compile(r"\?uninit|[wj]\d*:\('[#v]',")
HITHR = ((1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1)
LOTHR = (0, -(1 << 31), -(1 << 63))


class Joiner:
    """value-numbering join of n states: cells holding the same tuple of
    values (up to a constant) share one new symbol."""

    def __init__(self, m, states, ctx=None):
        self.m = m
        self.S = states
        self.ctx = ctx
        self.cls = {}        # canonical tuple -> Sym
        self.sets = {}       # sym id -> interval set
        self.tup = {}        # sym id -> canonical tuple (per state value)
        self.speccls = set()
        self.codecls = {}
        self.hidden = set()
        self.hard = []       # cells that could not be joined at all
        self.changed = False
        self.claimed = {}
        self.specphase = False
        self.eqcache = {}
        self.head = ctx.head if ctx is not None else None

    # -- integers
    def lin(self, vals, key, h=None):
        v0 = vals[0]
        S = self.S
        if self.ctx is None:
            if all(v == v0 for v in vals[1:]):
                return v0
            ck = tuple(vals)
            r = self.eqcache.get(ck)
            if r is None:
                r = False
                for c in dict.fromkeys(reversed(vals)):
                    if all(c == v or s.store.eq(c, v) for s, v in zip(S, vals)):
                        r = c
                        break
                self.eqcache[ck] = r
            if r is not False:
                return r
        else:
            if h is None:
                h = v0
            if v0 == h and all(v == h for v in vals[1:]):
                return h
            if h not in self.ctx_syms_lin() and S[0].store.eq(h, v0) and all(s.store.eq(h, v) for s, v in zip(S[1:], vals[1:])):
                return h
        c = v0.c
        canon = tuple(v.addc(-c) for v in vals)
        if self.ctx is not None:
            canon = canon + (h.addc(-c),)
        g = self.cls.get(canon)
        if g is None and self.ctx is not None and not self.specphase:
            # affine in a class that is already there: v = const + q * g
            allv = tuple(vals) + (h,)
            for o, og in self.cls.items():
                d0 = o[1].add(o[0], -1)
                e0 = allv[1].add(allv[0], -1)
                if d0 == e0:
                    q = 1
                elif d0.add(e0) == ZERO:
                    q = -1
                elif d0.t or e0.t or not d0.c or e0.c % d0.c or not e0.c:
                    continue
                else:
                    q = e0.c // d0.c
                base = allv[0].add(o[0], -q)
                if all(x.add(y, -q) == base for x, y in zip(allv[1:], o[1:])):
                    return base.add(L(og), q)
        if g is None:
            g = self.newsym(canon, vals, c, key, h)
        if self.specphase:
            self.speccls.add(canon)
            if self.ctx is None and isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], tuple) and key[1][0] == 'v' and key[1][1].startswith('_'):
                self.hidden.add(canon)
        else:
            self.codecls.setdefault(canon, key)
        return L(g).addc(c)

    def ctx_syms_lin(self):
        s = getattr(self, '_csl', None)
        if s is None:
            s = self._csl = {L(x) for x in self.ctx.widened.values()}
        return s

    def newsym(self, canon, vals, c, key, h):
        S = self.S
        cs = canon[:len(S)]
        if self.ctx is not None:
            # reuse the symbol of the previous head when this class still owns it
            if h is not None and len(h.t) == 1 and h.t[0][1] == 1:
                sid = h.t[0][0]
                if sid in self.ctx.widened and sid not in self.claimed and h.c == c:
                    g = Sym.table[sid]
                    self.claimed[sid] = canon
                    self.cls[canon] = g
                    self.tup[sid] = cs
                    return g
            self.changed = True
        lo, hi = INF, NINF
        u = EMPTY
        for s, v in zip(S, cs):
            vs = s.store.value_set(v)
            u = is_or(u, vs)
        if not u:
            u = TOP
        if self.ctx is None:
            g = fresh('j:%s' % keyname(key), u[0][0], u[-1][1])
        else:
            g = fresh('w%d:%s' % (self.ctx.id, keyname(key)))
            self.ctx.widened[g.id] = g
            self.claimed[g.id] = canon
        self.cls[canon] = g
        self.sets[g.id] = u
        self.tup[g.id] = cs
        return g

    def val(self, vals, key, h=None):
        """joined value or None (unjoinable)"""
        v0 = vals[0]
        m = self.m
        if h is None:
            h = v0
        if all(v == v0 for v in vals[1:]) and (self.ctx is None or h == v0):
            return v0
        if any(is_cond(v) for v in vals) and all(is_cond(v) or isinstance(v, Lin) for v in vals):
            iv = [m.int(s, v) if is_cond(v) else v for s, v in zip(self.S, vals)]
            hh = None
            if self.ctx is not None:
                if is_cond(h):
                    if h is True or h is False:
                        hh = ONE if h else ZERO
                    elif h[0] == 'atom' and h[2] == ((1, 1),):
                        hh = h[1]
                    else:
                        hh = L(derived('b2i', (h,), 0, 1))
                else:
                    hh = h if isinstance(h, Lin) else None
            r = self.lin01(iv, key, hh)
            if isinstance(r, Lin) and all(is_cond(v) for v in vals):
                if not r.t:
                    return bool(r.c)
                if len(r.t) == 1 and r.c == 0:
                    y = Sym.table[r.t[0][0]]
                    if y.expr is not None and y.expr[0] == 'b2i':
                        return y.expr[1][0]
                return atom(r, ((1, 1),))
            return r
        if all(isinstance(v, Lin) for v in vals):
            return self.lin01(vals, key, h if isinstance(h, Lin) else None)
        if all(isinstance(v, Vec) for v in vals):
            hv = h if isinstance(h, Vec) else v0
            if any(v.sname != v0.sname for v in vals):
                return None
            ln = self.lin([v.len for v in vals], (key, 'len'), hv.len if self.ctx else None)
            ds = [dict(v.items) for v in vals]
            hd = dict(hv.items)
            ks = set(hd)
            for d in ds:
                ks |= set(d)
            items = []
            for k in sorted(ks, key=str):
                c = self.lin([d.get(k, ZERO) for d in ds], (key, k), hd.get(k, ZERO) if self.ctx else None)
                if c != ZERO:
                    items.append((k, c))
            last = None
            if all(v.last is not None for v in vals) and (self.ctx is None or hv.last is not None):
                save = (dict(self.codecls), set(self.speccls))
                i = self.lin([v.last[0] for v in vals], (key, 'lasti'), hv.last[0] if self.ctx else None)
                w = self.val([v.last[1] for v in vals], (key, 'lastv'), hv.last[1] if self.ctx else None)
                self.codecls = save[0]
                if w is not None:
                    last = (i, w)
            r = Vec(ln, tuple(items), last, v0.sname)
            if self.ctx is not None and r.last != hv.last and hv.last is not None and last is None:
                self.changed = True
            return r
        if all(isinstance(v, Ptr) for v in vals):
            objs = {v.obj for v in vals if v.obj is not None}
            if len(objs) == 1:
                o = next(iter(objs))
                nz = [v for v in vals if v.obj is not None]
                off = nz[0].off
                if all(v.off == off for v in nz):
                    hp = h if isinstance(h, Ptr) else v0
                    ixs = [v.idx if v.obj is not None else nz[0].idx for v in vals]
                    hix = (hp.idx if hp.obj is not None else nz[0].idx)
                    ix = self.lin(ixs, (key, 'ix'), hix if self.ctx else None)
                    nns = [ZERO if v.obj is None else (ONE if v.nn is None else Lin(0, ((v.nn, 1),))) for v in vals]
                    hn = ZERO if hp.obj is None else (ONE if hp.nn is None else Lin(0, ((hp.nn, 1),)))
                    n = self.lin01(nns, (key, 'nn'), hn if self.ctx else None)
                    if n == ONE:
                        return Ptr(o, ix, off, None)
                    if n == ZERO:
                        return NULL
                    if len(n.t) == 1 and n.c == 0 and n.t[0][1] == 1:
                        return Ptr(o, ix, off, n.t[0][0])
                    if len(n.t) == 1:
                        nnc = self.__dict__.setdefault('_nnc', {})
                        if n in nnc:
                            return Ptr(o, ix, off, nnc[n].id)
                        g = nnc[n] = fresh('nn', 0, 1)
                        for cc, q in list(self.cls.items()):
                            if q.id == n.t[0][0]:
                                self.tup[g.id] = tuple(x.scale(n.t[0][1]).addc(n.c) for x in cc[:len(self.S)])
                        self.sets[g.id] = ((0, 1),)
                        return Ptr(o, ix, off, g.id)
        return None

    def lin01(self, vals, key, h=None):
        """booleans: express the join through a condition separating the states"""
        nn = isinstance(key, tuple) and key and key[-1] == 'nn'
        if self.ctx is None and (nn or not self.specphase) and len(vals) == 2 and vals[0] != vals[1]:
            c = vals[0].c
            canon = tuple(v.addc(-c) for v in vals)
            if canon in self.speccls and not nn:
                return self.lin(vals, key, h)
            if all(not v.t and v.c in (0, 1) for v in vals):
                sep = self.separator()
                if sep is not None:
                    cond = sep if vals[0].c == 1 else c_not(sep)
                    return L(derived('b2i', (cond,), 0, 1))
        return self.lin(vals, key, h)

    def separator(self):
        """condition true in state 0 and false in state 1, over one stored form"""
        if hasattr(self, '_sep'):
            return self._sep
        a, b = self.S[0].store, self.S[1].store
        best = None
        for f in set(a.d) | set(b.d):
            va, vb = a.form_set(f), b.form_set(f)
            if va and vb and is_and(va, vb) == EMPTY:
                rank = (len(f), any(Sym.table[i].expr is not None for i, _ in f), f)
                if best is None or rank < best[0]:
                    best = (rank, atom(Lin(0, f), va))
        self._sep = best[1] if best else None
        return self._sep

    # -- whole states
    def frames_join(self, new, head):
        S = self.S
        for k in range(len(S[0].frames)):
            fs = [s.frames[k] for s in S]
            hf = head.frames[k] if head is not None else fs[0]
            if all(f is fs[0] for f in fs) and hf is fs[0]:
                continue
            nr = {}
            regs = set(fs[0].regs)
            for f in fs[1:]:
                regs &= set(f.regs)
            if head is not None:
                regs &= set(hf.regs)
            for r in sorted(regs):
                vals = [f.regs[r] for f in fs]
                v = self.val(vals, ('r', k, r), hf.regs[r] if head is not None else None)
                if v is None:
                    self.hard.append(('r', k, r))
                    v = Unk('join')
                nr[r] = v
            f = fs[0].copy()
            f.regs = nr
            new.frames[k] = f

    def mem_join(self, new, head):
        S = self.S
        objs = set(S[0].mem)
        for s in S[1:]:
            objs &= set(s.mem)
        if head is not None:
            objs &= set(head.mem)
        mem = {}
        order = sorted(objs - {SPEC}, key=str)
        if SPEC in objs:
            order = [SPEC] + order
        for o in order:
            self.specphase = o == SPEC
            cs = [s.mem[o] for s in S]
            hc = head.mem[o] if head is not None else cs[0]
            if all(c is cs[0] for c in cs) and hc is cs[0]:
                mem[o] = cs[0]
                continue
            info = self.m.objinfo.get(o) or {}
            n = {}
            if o == SPEC:
                keys = set(hc)
                for c in cs:
                    keys |= set(c)
            elif info.get('sym') is not None:
                keys = set(cs[0])
                for c in cs[1:]:
                    keys |= set(c)
            else:
                keys = set(cs[0])
                for c in cs[1:]:
                    keys &= set(c)
                if head is not None:
                    keys &= set(hc)
                if info.get('zero'):
                    keys = set(hc) if head is not None else set(cs[0])
                    for c in cs:
                        keys |= set(c)
            for k in sorted(keys, key=str):
                if o == SPEC:
                    vals = [c.get(k) for c in cs]
                    miss = self.m.obs.spec_default(k, [v for v in vals if v is not None] + ([hc[k]] if k in hc else []))
                    vals = [miss if v is None else v for v in vals]
                    h = hc.get(k, miss)
                elif any(k not in c for c in cs) or k not in hc:
                    if info.get('sym') is not None:
                        # untouched lazily symbolic field: same initial value everywhere
                        if all(k not in c or c[k] == next(x[k] for x in cs if k in x) for c in cs):
                            n[k] = next(x[k] for x in cs if k in x)
                        continue
                    d = next((c[k] for c in cs if k in c), hc.get(k))
                    z = zero_like(d)
                    vals = [c.get(k, z) for c in cs]
                    h = hc.get(k, z)
                else:
                    vals = [c[k] for c in cs]
                    h = hc[k]
                v = self.val(vals, (o, k), h if head is not None else None)
                if v is None:
                    self.hard.append((o, k))
                    if self.ctx is not None and not isinstance(h, Unk):
                        self.changed = True
                    v = Unk('join')
                n[k] = v
            if head is not None and n == hc:
                n = hc
            mem[o] = n
        self.specphase = False
        new.mem = mem
        new.own = set()
        if head is not None and set(mem) != set(head.mem):
            self.changed = True

    def live_syms(self, st):
        out = set()

        def addl(l):
            for i, _ in l.t:
                if i not in out:
                    out.add(i)
                    out.update(Sym.table[i].bases)

        def add(v):
            if isinstance(v, Lin):
                addl(v)
            elif isinstance(v, Vec):
                addl(v.len)
                for _, c in v.items:
                    addl(c)
                if v.last:
                    addl(v.last[0]); add(v.last[1])
            elif isinstance(v, Ptr):
                if v.idx.t:
                    addl(v.idx)
                if v.nn is not None:
                    out.add(v.nn)
            elif isinstance(v, Iter):
                if not isinstance(v.found, bool):
                    out.add(v.found)
                if isinstance(v.key, Lin):
                    addl(v.key)
            elif is_cond(v):
                if v is not True and v is not False:
                    out.update(cond_syms(v))
                    out.update(cond_ids(v))
            elif isinstance(v, tuple):
                for x in v:
                    add(x)
        for c in st.mem.values():
            for v in c.values():
                add(v)
        for f in st.frames:
            for v in f.regs.values():
                add(v)
        return out

    def keep_form(self, f, live):
        for i, _ in f:
            if i in live:
                continue
            y = Sym.table[i]
            if y.name in Sym.named:
                continue
            if y.expr is not None and all(b in live or Sym.table[b].name in Sym.named for b in y.bases):
                continue
            return False
        return True

    def join(self, force):
        S = self.S
        new = S[0].copy()
        self.mem_join(new, None)
        self.frames_join(new, None)
        if not force:
            if self.hard:
                return None
            # the specification ran ahead of the code on a hidden variable:
            # joining now would lose what the code is about to do
            if any(c not in self.codecls for c in self.hidden):
                return None
            for canon, key in self.codecls.items():
                if canon not in self.speccls:
                    return None
        a, b = S[0].store, S[1].store
        live = self.live_syms(new)
        if a is not b:
            d = {}
            for f in set(a.d) | set(b.d):
                if not self.keep_form(f, live):
                    continue
                sa, sb = a.d.get(f), b.d.get(f)
                if sa is not None and sa == sb:
                    d[f] = sa
                    continue
                va, vb = a.form_set(f), b.form_set(f)
                u = is_or(va, vb)
                if len(f) == 1:
                    y = Sym.table[f[0][0]]
                    if is_subset(((y.lo, y.hi),), u):
                        continue
                elif u[0][0] <= NINF and u[-1][1] >= INF and len(u) == 1:
                    continue
                d[f] = u
        else:
            d = {f: s for f, s in a.d.items() if self.keep_form(f, live)}
        for sid, u in self.sets.items():
            if sid in live:
                y = Sym.table[sid]
                if u != ((y.lo, y.hi),):
                    d[((sid, 1),)] = u
        new.store = Store(d)
        new.aux = self.m.obs.merge_aux(S[0], S[1])
        for k, v in S[1].tags.items():
            new.tags[k] = v
        for s in S[1:]:
            new.und = max(new.und, s.und)
        return new

    def loop_join(self):
        """new loop head from entry state S[0] and back-edge states S[1:]"""
        ctx = self.ctx
        S = self.S
        first = ctx.head is None
        head = S[0] if first else ctx.head
        new = head.copy()
        if first:
            self.changed = True
        self.mem_join(new, head)
        self.frames_join(new, head)
        if self.hard and not first:
            pass
        # force aux equality in the loop (observer position is part of the key)
        live = self.live_syms(new)

        def at(k, form):
            l = Lin(0, form)
            out = l
            for i, q in l.t:
                t = self.tup.get(i)
                if t is not None:
                    out = out.add(Lin(0, ((i, 1),)), -q).add(t[k], q)
                elif i in ctx.widened:
                    return TOP
                elif Sym.table[i].expr is not None and Sym.table[i].bases & self.wset():
                    return TOP
            return S[k].store.value_set(out)
        cand = set()
        for s in S:
            cand |= set(s.store.d)
        if not first:
            cand |= set(head.store.d)
        for sid in self.tup:
            cand.add(((sid, 1),))
        if first:
            # a counter compared with an input for equality only: keep their distance
            learnt = {f[0][0] for s in S[1:] for f, v in s.store.d.items() if len(f) == 1 and S[0].store.d.get(f) != v}
            for sid, t in list(self.tup.items()):
                if all(not x.t for x in t) and t[0].c == 0 and all(x.c == 1 for x in t[1:]):
                    for i in sorted(learnt):
                        y = Sym.table[i]
                        if y.expr is None and i not in self.tup and i in live and y.lo == 0 and y.hi > 64:
                            cand.add(atom_key(Lin(0, ((i, 1),)).add(Lin(0, ((sid, 1),)), -1))[0])
        d = {}
        for f in cand:
            if f in ctx.dropped or not self.keep_form(f, live):
                continue
            u = EMPTY
            for k in range(len(S)):
                u = is_or(u, at(k, f))
            if not u:
                continue
            y = Sym.table[f[0][0]] if len(f) == 1 else None
            h = None if first else head.store.d.get(f)
            if h is not None:
                if is_subset(u, h):
                    d[f] = h
                    continue
                self.changed = True
                if y is not None and not (f[0][0] in ctx.widened) and is_subset(u, ((y.lo, y.hi),)) and ctx.rounds < 8:
                    # input-like symbol: plain union converges
                    d[f] = is_or(u, h)
                    continue
                lo, hi = h[0][0], h[-1][1]
                ul, uh = u[0][0], u[-1][1]
                nlo = lo if ul >= lo else max((t for t in LOTHR if t <= ul), default=NINF)
                nhi = hi if uh <= hi else min((t for t in HITHR if t >= uh), default=INF)
                if y is not None:
                    nlo = max(nlo, y.lo); nhi = min(nhi, y.hi)
                if (nlo <= NINF and nhi >= INF) or ctx.rounds > 20:
                    ctx.dropped.add(f)
                    continue
                if len(u) > 1 or len(h) > 1:
                    uu = is_or(u, h)
                    if ctx.rounds < 6:
                        d[f] = uu
                        continue
                d[f] = ((nlo, nhi),)
                continue
            if not first and f in head.store.d:
                continue
            if y is not None and is_subset(((y.lo, y.hi),), u):
                continue
            if u[0][0] <= NINF and u[-1][1] >= INF:
                continue
            if not first and ctx.rounds > 14:
                continue
            if len(f) == 1 and f[0][0] in ctx.widened and len(u) > 8:
                u = ((u[0][0], u[-1][1]),)
            d[f] = u
            if not first:
                self.changed = True
        if not first:
            for f in head.store.d:
                if f not in d and f not in ctx.dropped:
                    self.changed = True
        new.store = Store(d)
        new.own = set()
        new.tags = dict(S[0].tags)
        new.aux = dict(head.aux)
        new.und = max(s.und for s in S)
        return new, self.changed

    def wset(self):
        s = getattr(self, '_ws', None)
        if s is None:
            s = self._ws = frozenset(self.ctx.widened)
        return s


def keyname(key):
    s = str(key[-1] if isinstance(key, tuple) else key)
    return s[-40:]


def cond_ids(c):
    if c is True or c is False:
        return set()
    if c[0] == 'atom':
        return {i for i, _ in c[1].t}
    s = set()
    for x in c[1:]:
        s |= cond_ids(x)
    return s


def zero_like(v):
    if isinstance(v, Vec):
        return Vec(ZERO)
    if isinstance(v, Ptr):
        return NULL
    return ZERO


def small_values(st, u, lim=4):
    if len(u.t) == 1:
        u = Lin(0, ((u.t[0][0], 1),))
    vs = st.store.value_set(u)
    if is_size(vs) <= lim:
        raise NeedSplit([atom(u, ((k, k),)) for k in is_values(vs)])


def consumed(st, v=0):
    """input was consumed (v 0) or may have been (v 2) in every iteration under way"""
    for k in [k for k, x in st.aux.items() if x == 1 and isinstance(k, tuple) and k[0] == '_i' or x == 2 and v == 0 and isinstance(k, tuple) and k[0] == '_i']:
        st.aux[k] = v


def callee_name(i):
    c = i.a[0]
    return c[1] if c[0] == 'g' else None


class Machine:
    MAX_STEPS = 400000
    MAX_SECONDS = 200           # for one function
    DEADLINE = float('inf')     # for the whole check, set by check.py
    UNROLL = 70
    peel = 0

    def __init__(self, prog, observer):
        self.prog = prog
        self.obs = observer
        self.fninfo = {}
        self.objinfo = {}
        self.heap = []
        self.pending = {}
        self.seq = itertools.count()
        self.ctxs = {}
        self.steps = 0
        self.t0 = time.monotonic()
        self.ctxcount = itertools.count()
        self.visited = set()      # (fn, block) analysed
        self.assumed_ranges = {}  # symbol name -> (lo,hi)
        self.done = []
        self.opaque_calls = {}
        self.callees = set()
        import models
        self.models = models
        self.quiet = Quiet()
        self.map_structs = {}
        self.known_size = {}      # list -> length of its elements, or the list it is as long as
        self.elemsym = {}
        self._lev = {}
        self._fev = {}

    def info(self, fn):
        i = self.fninfo.get(id(fn))
        if i is None:
            i = FnInfo(fn)
            self.fninfo[id(fn)] = i
        return i

    def where(self, st, ins=None):
        f = st.top
        if ins is None:
            bl = f.fn.blocks[f.block]
            ins = bl[min(f.idx, len(bl) - 1)]
        file, line = f.fn.mod.loc(ins.dbg)
        return file, line, self.prog.dem(f.fn.name)

    # ------------------------------------------------------------ scheduling
    def prio(self, st):
        p = []
        for f in st.frames:
            p.append(self.info(f.fn).index[f.block])
            p.append(f.idx)
        return tuple(p)

    def key(self, st):
        return (tuple((f.fn.name, f.block, f.idx) for f in st.frames), self.obs.part_key(st),
                tuple(sorted((k, c.id) for k, c in st.loops.items())))

    def push(self, st):
        for s in self.obs.expand(self, st):
            self.push1(s)

    def push1(self, st):
        k = self.key(st)
        l = self.pending.get(k)
        if l is None:
            self.pending[k] = [st]
            heapq.heappush(self.heap, (self.prio(st), next(self.seq), k))
        else:
            l.append(st)

    def run(self, st):
        self.push(st)
        while self.heap:
            pr, _, k = heapq.heappop(self.heap)
            if isinstance(k, LoopCtx):
                self.loop_round(k)
                continue
            states = self.pending.pop(k, None)
            if not states:
                continue
            if len(states) > 1:
                states = self.merge_all(states)
            for s in states:
                self.exec_block(s)

    APART = 12
    WITNESSES = 3

    def result_sig(self, st):
        """what the functions on the stack are about to return, as far as it is constant"""
        def c(v):
            if isinstance(v, Ptr):
                return 'null' if v.obj is None else 'ptr'
            if isinstance(v, Lin):
                return None if v.t else v.c
            return v if v is True or v is False else None
        out = []
        for d, f in enumerate(st.frames):
            for a in ('retval', 'cleanup.dest.slot'):
                x = st.mem.get(('a', d + 1, f.fn.name, a))
                if x:
                    out.append((d, a, c(x.get(0))))
            fi = self.info(f.fn)
            for i in f.fn.blocks[f.block]:
                if i.op != 'phi':
                    break
                out.append((d, i.res, c(f.regs.get(i.res))))
        p = getattr(self.obs, 'ret_slot', None)
        if p is not None:
            out.append(c(st.mem.get(p.obj, {}).get(p.off)))
        return tuple(out)

    def merge_all(self, states):
        out, seek, fam = [], [], {}
        for s in states:
            k = self.obs.witness(s)
            if k is not None:
                k = (k, self.result_sig(s))
                # one path is enough here: keep a few, join none
                if fam.get(k, 0) < self.WITNESSES:
                    fam[k] = fam.get(k, 0) + 1
                    seek.append(s)
                continue
            cur = s
            changed = True
            while changed:
                changed = False
                for i, o in enumerate(out):
                    m = self.merge(o, cur, self.obs.force_merge(cur))
                    if m is not None:
                        out.pop(i)
                        cur = m
                        changed = True
                        break
            out.append(cur)
            if len(out) > self.obs.apart(cur):
                # too many unrelated states: give up their correlation
                m = self.merge(out[0], out[1], True)
                if m is not None:
                    m.aux['_imprecise'] = 1
                    out[0:2] = [m]
        return out + seek

    # ------------------------------------------------------------ joins
    def merge(self, a, b, force=False):
        """join of two states at the same program point / observer position.
        Without `force` only joins whose distinct value pairs are all tracked
        by the observer (lock step) are made; otherwise None."""
        if len(a.frames) != len(b.frames):
            return None
        if not self.obs.aux_mergeable(a, b):
            return None
        for fa, fb in zip(a.frames, b.frames):
            if fa is not fb and (fa.hook != fb.hook or fa.dest != fb.dest):
                return None
        if not force and not self.obs.merge_ok(a, b):
            return None
        self.obs.pre_merge(a, b)
        j = Joiner(self, [a, b])
        m = j.join(force)
        return m

    # ------------------------------------------------------------ loops
    def loop_arrive(self, st, fi, block):
        """st is at the start of loop head `block`; returns state to run or None"""
        f = st.top
        lk = (len(st.frames), f.fn.name, block)
        inside = f.prev in fi.loop_body[block]
        ctx = st.loops.get(lk) if inside else None
        if self.loop_has_events(fi, block):
            guard = self.obs.at_loop_head(self, st, ctx.guard if ctx is not None else None)
        else:
            guard = None
        if ctx is not None and ctx.guard is not None:
            guard = ctx.guard
        pc = self.obs.part_key(st)
        if ctx is None or ctx.pc != pc:
            if ctx is not None:
                # unrolled: same loop, observer moved on
                n = st.aux.get('_unroll', 0) + 1
                if n > 600:
                    raise Undecided('loop at %s unrolled too often' % (self.where(st),))
                st.aux['_unroll'] = n
                old = ctx.chain.get(pc) if n > 2 else None
                if old is not None and old.id in st.tags:
                    # the observer came round again: its own loop
                    st.loops = dict(st.loops)
                    st.loops[lk] = old
                    old.back.append(st)
                    if len(old.back) == 1:
                        heapq.heappush(self.heap, (old.wprio, next(self.seq), old))
                    return None
            r = self.new_ctx(st, fi, lk, block, pc, guard)
            if ctx is not None:
                c = r.loops[lk]
                c.chain = dict(ctx.chain)
                c.chain[ctx.pc] = ctx
            return r
        # back edge
        self.progress(st, ctx, lk, fi, block)
        if (st.und == st.aux.get(('_u', lk), -1) or self.obs.unroll or self.counted(st, fi, block)) and st.aux.get(('_v', lk), 0) < self.UNROLL:
            # fully decided iteration: keep unrolling
            v = st.aux.get(('_v', lk), 0) + 1
            r = self.new_ctx(st, fi, lk, block, pc, guard)
            r.aux[('_v', lk)] = v
            return r
        if self.peel:
            # exploration of the first iterations only, without joins
            n = st.aux.get(('_p', lk), 0) + 1
            if n > self.peel:
                return None
            v = st.aux.get(('_v', lk), 0)
            r = self.new_ctx(st, fi, lk, block, pc, guard)
            r.aux[('_p', lk)] = n
            r.aux[('_v', lk)] = v
            return r
        ctx.back.append(st)
        if len(ctx.back) == 1:
            heapq.heappush(self.heap, (ctx.wprio, next(self.seq), ctx))
        return None

    IDLE_LIMIT = 1 << 20

    def progress(self, st, ctx, lk, fi, block):
        """an iteration that consumed no input: it must change something, and if it
        counts, not further than a small limit"""
        self.obs.stats['iterations'] = self.obs.stats.get('iterations', 0) + 1
        if st.aux.get(('_i', lk)) != 1 or not hasattr(self.obs, 'report'):
            return
        h = ctx.head if ctx.head is not None else ctx.entry
        ign = lambda k: isinstance(k, tuple) and k[0] in ('_u', '_v', '_i', '_p') or k in ('_unroll', '_imprecise', '_soft', '_at')
        if {k: v for k, v in st.aux.items() if not ign(k)} != {k: v for k, v in h.aux.items() if not ign(k)}:
            return
        if len(h.frames) != len(st.frames):
            return
        changed, outer = self.changes(st, h, fi, block)
        ins, fn = fi.fn.blocks[block][-1], st.top.fn.name
        if not changed:
            self.obs.report(self, st, 'PROGRESS', ('stuck', fn), 'an iteration of this loop can change nothing that it tests and consume nothing: it never ends', ins, **self.obs.softness(st))
            return
        if outer and not self.obs.stream:
            return        # the position of the input is in memory
        lim = self.IDLE_LIMIT if self.obs.stream else 1 << 60
        for a, b in changed:
            if isinstance(a, Lin) and isinstance(b, Lin):
                c = a.add(b, -1)
                if not c.t and c.c != 0:
                    lo, hi = st.store.rng(a)
                    if hi - lo > lim:
                        self.obs.report(self, st, 'PROGRESS', ('work', fn), 'iterations of this loop can consume no input, up to %s times' % (hi - lo), ins, **self.obs.softness(st))
                        return

    def changes(self, st, h, fi, block, skip=()):
        """live cells that differ between two states at loop head `block`"""
        live = fi.live_at(block, 0)
        changed, outer = [], False
        stale, ctl = fi.stale(block), fi.control(block)
        fr, fh = st.top.regs, h.top.regs
        for r in live:
            if r in fr and fr.get(r) != fh.get(r):
                changed.append((fr.get(r), fh.get(r)))
        d = len(st.frames)
        for o in set(st.mem) | set(h.mem):
            if o in skip:
                continue
            a, b = st.mem.get(o) or {}, h.mem.get(o) or {}
            if a is b:
                continue
            if o[0] == 'a' and (o[1] > d or o[1] == d and o[3] in fi.scalars and ('cell', o[3]) not in live or o[1] == d and (o[3] in stale or o[3] not in ctl)):
                continue
            for k in set(a) | set(b):
                if a.get(k) != b.get(k):
                    if k in a and k in b and isinstance(a[k], Lin) and isinstance(b[k], Lin) and st.store.eq(a[k], b[k]):
                        continue
                    changed.append((a.get(k), b.get(k)))
                    outer = outer or o[0] != 'a' or o[3] not in fi.scalars
        return changed, outer

    def counted(self, st, fi, block):
        """an event-free loop whose head test was decided this time round"""
        return st.top.fn.blocks[block][-1].op == 'cbr' and not self.loop_has_events(fi, block)

    def loop_has_events(self, fi, block):
        k = (fi.fn.name, block)
        r = self._lev.get(k)
        if r is None:
            r = False
            for b in fi.loop_body[block]:
                for i in fi.fn.blocks[b]:
                    if i.op == 'call' and self.fn_has_events(callee_name(i)):
                        r = True
            self._lev[k] = r
        return r

    def fn_has_events(self, name, seen=None):
        if name is None:
            return True
        r = self._fev.get(name)
        if r is not None:
            return r
        if '9BitBuffer' in name or 'report_unimplemented' in name:
            r = True
        else:
            fn = self.prog.fn.get(name)
            if fn is None:
                r = False
            else:
                self._fev[name] = False
                fn.parse()
                r = any(i.op == 'call' and self.fn_has_events(callee_name(i)) for b in fn.order for i in fn.blocks[b])
        self._fev[name] = r
        return r

    def new_ctx(self, st, fi, lk, block, pc, guard):
        c = LoopCtx()
        c.guard = guard
        c.chain = {}
        c.id = next(self.ctxcount)
        c.block = block
        c.depth = len(st.frames)
        c.fnname = st.top.fn.name
        c.back = []
        c.version = 0
        c.dropped = set()
        c.rounds = 0
        c.widened = {}
        c.pc = pc
        p = list(self.prio(st))
        p[-2] = fi.loop_end[block]
        p[-1] = 10 ** 7
        c.wprio = tuple(p)
        st = st.copy()
        st.loops[lk] = c
        st.aux[('_u', lk)] = st.und
        st.aux.setdefault(('_v', lk), 0)
        st.aux[('_i', lk)] = 1
        c.entry = st.copy()
        c.head = None
        c.file_line = self.where(st)
        self.ctxs[c.id] = c
        st.tags[c.id] = 0
        return st

    def loop_round(self, ctx):
        back = ctx.back
        ctx.back = []
        if not back:
            return
        if len(back) > 1:
            back = self.merge_all(back)
        ctx.rounds += 1
        if ctx.rounds > 60:
            raise Undecided('loop at %s/%s does not stabilise' % (ctx.fnname, ctx.block))
        j = Joiner(self, [ctx.entry] + back, ctx)
        new, changed = j.loop_join()
        if not changed:
            self.obs.loop_stable(self, ctx)
            return
        ctx.head = new
        ctx.version += 1
        # discard everything derived from older versions
        cid = ctx.id
        for k in list(self.pending):
            self.pending[k] = [s for s in self.pending[k] if cid not in s.tags]
        for c in self.ctxs.values():
            if c.back:
                c.back = [s for s in c.back if cid not in s.tags]
        self.done = [s for s in self.done if cid not in s.tags]
        self.obs.retract(cid)
        r = new.copy()
        r.tags[cid] = ctx.version
        lk = (ctx.depth, ctx.fnname, ctx.block)
        r.aux[('_u', lk)] = -2   # never unroll again from here
        r.aux[('_v', lk)] = self.UNROLL
        r.aux[('_i', lk)] = 1
        r.und += 1
        self.exec_from(r)

    # ------------------------------------------------------------ execution
    def exec_block(self, st, at_head=False):
        """run st until it reaches block boundaries; successors are pushed"""
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Undecided('step budget exhausted')
        now = time.monotonic()
        if now > self.DEADLINE or now - self.t0 > self.MAX_SECONDS:
            raise Undecided('time budget exhausted')
        f = st.top
        fi = self.info(f.fn)
        if f.idx == 0 and not at_head:
            self.visited.add((f.fn.name, f.block))
            self.prune(st)
            if f.block in fi.loop_end:
                st = self.loop_arrive(st, fi, f.block)
                if st is None:
                    return
        self.exec_from(st)

    def prune(self, st, extra=0):
        """forget dead registers and scalar locals of the top frame"""
        f = st.top
        fi = self.info(f.fn)
        live = fi.live_at(f.block, f.idx + extra)
        f.regs = {r: v for r, v in f.regs.items() if r in live or r in fi.allocas}
        d = len(st.frames)
        for a in fi.scalars:
            if ('cell', a) not in live:
                o = ('a', d, f.fn.name, a)
                c = st.mem.get(o)
                if c:
                    st.mem[o] = {}
                    st.own.add(o)

    def exec_from(self, st):
        work = [st]
        while work:
            st = work.pop()
            while True:
                f = st.top
                ins = f.fn.blocks[f.block][f.idx]
                try:
                    r = self.step(st, ins)
                except NeedSplit as e:
                    subs = []
                    rest = [st.store]
                    for c in e.conds:
                        for s in st.store.assume(c, True):
                            n = st.copy()
                            n.store = s
                            n.und += 1
                            subs.append(n)
                    if len(subs) == 1 and subs[0].store.d == st.store.d:
                        raise Undecided('split makes no progress at %s: %s' % (self.where(st), [fmt_cond(c) for c in e.conds][:3]))
                    subs = [x for n in subs for x in self.obs.expand(self, n)]
                    work.extend(reversed(subs))
                    break
                if r is None:
                    f = st.top
                    f.idx += 1
                    continue
                if r == 'stop':
                    break
                if r == 'goto':      # control moved, same state continues at new position
                    if st.top.idx == 0:
                        self.push(st)
                        break
                    continue
                # list of states to continue in place (forks); each already positioned
                work.extend(reversed(r))
                break

    def goto(self, st, block):
        f = st.top
        bl = f.fn.blocks[block]
        if bl[0].op == 'phi':
            new = {}
            for ins in bl:
                if ins.op != 'phi':
                    break
                for v, l in ins.a:
                    if l == f.block:
                        new[ins.res] = self.val(st, v, ins.ty)
                        break
            f.regs.update(new)
        f.prev = f.block
        f.block = block
        f.idx = 0
        if st.loops:
            d = len(st.frames)
            fi = self.info(f.fn)
            for lk in [k for k in st.loops if k[0] == d and block not in fi.loop_body[k[2]]]:
                self.leave_loop(st, lk)
        return 'goto'

    def leave_loop(self, st, lk):
        c = st.loops.pop(lk)
        st.aux.pop(('_u', lk), None)
        st.aux.pop(('_v', lk), None)
        st.aux.pop(('_i', lk), None)
        st.aux.pop(('_p', lk), None)

    def val(self, st, v, ty=None):
        k = v[0]
        if k == 'l':
            r = st.top.regs.get(v[1])
            if r is None:
                return Unk('undef:' + v[1])
            return r
        if k == 'c':
            return Lin(v[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'undef':
            return Unk('undef') if ty is None or ty[0] != 'i' else L(sym('undef', *((NINF, INF))))
        if k == 'zero':
            return ZERO if ty and ty[0] == 'i' else Unk('zero')
        if k == 'cgep':
            base = self.val(st, v[2][0][1])
            return self.gep(st, v[1], base, v[2][1:], st.top.fn.mod)
        if k == 'f':
            return self.fconst(v[1])
        return Unk(str(v))

    def fconst(self, txt):
        try:
            t = str(txt)
            if t.startswith('0x'):
                import struct
                return FV('c', (struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0],))
            return FV('c', (float(t),))
        except (ValueError, struct.error):
            return Unk('f:' + str(txt))

    def global_ptr(self, st, name):
        return self.global_ptr_of(st.top.fn.mod, name)

    def global_ptr_of(self, mod, name):
        o = ('g', mod.src if self.is_local_global(mod, name) else '', name)
        if o not in self.objinfo:
            self.objinfo[o] = {'kind': 'global', 'name': name, 'mod': mod, 'def': mod.globals.get(name)}
        return Ptr(o)

    def is_local_global(self, mod, name):
        d = mod.globals.get(name)
        return d is not None and d.startswith(('private', 'internal'))

    def int(self, st, v):
        """value as Lin"""
        if isinstance(v, Lin):
            return v
        if is_cond(v):
            if v is True:
                return ONE
            if v is False:
                return ZERO
            d = st.store.decide(v)
            if d is not None:
                return ONE if d else ZERO
            return L(derived('b2i', (v,), 0, 1))
        if isinstance(v, Unk):
            return L(sym('unk:' + str(v.tag)))
        if isinstance(v, Ptr):
            return L(sym('ptr:' + repr(v), 0, 1 << 64))
        raise Undecided('not an integer: %r' % (v,))

    def norm(self, st, lin, w, signed):
        """representative of lin mod 2^w in the given signedness range"""
        lo, hi = st.store.rng(lin)
        rl, rh = vrange(w, signed)
        if rl <= lo and hi <= rh:
            return lin
        if self.bitmode and not signed and lin.t:
            b = self.bits(st, lin, w)
            if b is not None:
                return self.unbits(b)
        if lo > NINF and hi < INF:
            m = 1 << w
            k = (lo - rl) // m
            k2 = (hi - rl) // m
            if k == k2:
                return lin.addc(-k * m)
            if k2 - k <= 2:
                conds = []
                for q in range(k, k2 + 1):
                    conds.append(atom(lin, ((rl + q * m, rh + q * m),)))
                raise NeedSplit(conds)
        return L(derived('wraps' if signed else 'wrapu', (lin, w), rl, rh))

    def cmp(self, st, pred, a, b, w):
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.models.iter_cmp(self, st, pred, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrcmp(st, pred, a, b)
        if is_cond(a) and is_cond(b) and w == 1:
            if pred in ('eq', 'ne'):
                a = self.int(st, a); b = self.int(st, b)
        if isinstance(a, Unk) and isinstance(b, Unk) or isinstance(a, Unk) or isinstance(b, Unk):
            return atom(L(sym('cmp:%s:%r:%r' % (pred, a, b), 0, 1)), ((1, 1),))
        a = self.int(st, a); b = self.int(st, b)
        if pred in ('eq', 'ne'):
            d = a.add(b, -1)
            lo, hi = st.store.rng(d)
            m = 1 << w
            if not (-m < lo and hi < m):
                a = self.norm(st, a, w, False); b = self.norm(st, b, w, False)
                d = a.add(b, -1)
            else:
                # difference within one modulus: equal iff difference in {-?}
                pts = [k for k in (-m, 0, m) if lo <= k <= hi]
                c = False
                for k in pts:
                    c = c_or(c, atom(d, ((k, k),)))
                return c if pred == 'eq' else c_not(c)
            c = atom(d, ((0, 0),))
            return c if pred == 'eq' else c_not(c)
        signed = pred[0] == 's'
        a = self.norm(st, a, w, signed); b = self.norm(st, b, w, signed)
        d = a.add(b, -1)
        p = pred[1:]
        s = {'lt': ((NINF, -1),), 'le': ((NINF, 0),), 'gt': ((1, INF),), 'ge': ((0, INF),)}[p]
        return atom(d, s)

    def nonnull(self, st, p):
        """condition that pointer p is non-null"""
        if not isinstance(p, Ptr):
            return atom(L(sym('nn:%r' % (p,), 0, 1)), ((1, 1),))
        if p.obj is None:
            return False
        if p.nn is None:
            return True
        return atom(Lin(0, ((p.nn, 1),)), ((1, 1),))

    def ptrcmp(self, st, pred, a, b):
        if isinstance(b, Ptr) and b.obj is None and isinstance(a, Ptr):
            c = self.nonnull(st, a)
            return c_not(c) if pred == 'eq' else c
        if isinstance(a, Ptr) and a.obj is None and isinstance(b, Ptr):
            c = self.nonnull(st, b)
            return c_not(c) if pred == 'eq' else c
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if a.off == b.off:
                d = a.idx.add(b.idx, -1)
                if pred in ('eq', 'ne'):
                    c = atom(d, ((0, 0),))
                    return c if pred == 'eq' else c_not(c)
                p = pred[1:]
                s = {'lt': ((NINF, -1),), 'le': ((NINF, 0),), 'gt': ((1, INF),), 'ge': ((0, INF),)}[p]
                return atom(d, s)
            if a.idx == b.idx:
                d = a.off - b.off
                if pred == 'eq':
                    return d == 0
                if pred == 'ne':
                    return d != 0
                return {'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[pred[1:]]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and pred in ('eq', 'ne') and a.obj and b.obj and a.obj[0] in ('a', 'h') and b.obj[0] in ('a', 'h'):
            return pred == 'ne'
        return atom(L(sym('pcmp:%s:%r:%r' % (pred, a, b), 0, 1)), ((1, 1),))

    def gep(self, st, bt, base, idxs, mod):
        if isinstance(base, Iter):
            return base
        if not isinstance(base, Ptr):
            return Unk('gep')
        if base.obj is None:
            return base if not idxs else Ptr(None, ZERO, base.off)
        p = base
        t = bt
        first = True
        for (ity, iv) in idxs:
            i = self.int(st, self.val(st, iv, ity))
            c = st.store.const(i)
            if first:
                first = False
                if c == 0:
                    continue
                size = mod.size_align(t)[0]
                if self.arraylike(p.obj):
                    es = self.elemsize(p.obj, size)
                    if size == es:
                        i2 = self.norm(st, i, ity[1], True)
                        p = Ptr(p.obj, p.idx.add(i2), p.off, p.nn)
                        continue
                if c is None:
                    i2 = self.small_split(st, i)
                    p = Ptr(p.obj, p.idx.add(i2, size), p.off, p.nn)
                else:
                    if c >= 1 << 63:
                        c -= 1 << 64
                    p = p.plus(c * size)
                continue
            if t[0] in ('struct', 'lit'):
                _, _, offs = mod.layout(t)
                off, t = offs[c]
                p = p.plus(off)
            elif t[0] in ('arr', 'vec'):
                size = mod.size_align(t[2])[0]
                t = t[2]
                if c is not None:
                    p = p.plus(c * size)
                else:
                    p = Ptr(p.obj, p.idx.add(i, size), p.off, p.nn)
        return p

    def small_split(self, st, i):
        return i

    def arraylike(self, obj):
        return self.objinfo.get(obj, {}).get('array', False)

    def elemsize(self, obj, default):
        return self.objinfo.get(obj, {}).get('esize') or default

    # -- memory
    def load(self, st, p, ty, ins=None):
        if isinstance(p, Iter):
            p = self.models.iter_elem(self, st, p)
        if not isinstance(p, Ptr):
            return self.unknown(st, ty, ins, 'load')
        if p.obj is None or p.nn is not None:
            self.obs.deref(self, st, p, ins, 'load')
            if p.obj is None:
                return self.unknown(st, ty, ins, 'null')
        info = self.objinfo.get(p.obj, {})
        if info.get('array') or p.idx != ZERO:
            r = self.models.array_load(self, st, p, ty, ins, info)
            if r is not None:
                return r
        c = st.mem.get(p.obj)
        if c is not None and ty[0] == 'i' and ty[1] in (24, 40, 48, 56):
            return Blob((k - p.off, c[k]) for k in sorted(k for k in c if isinstance(k, int)) if p.off <= k < p.off + ty[1] // 8)
        if c is not None:
            v = c.get(p.off)
            if v is not None:
                return v
        if info.get('kind') == 'global':
            v = self.models.global_load(self, st, info, p, ty)
            if v is not None:
                return v
        sname = info.get('sym')
        if sname is not None:
            v = self.models.lazy_field(self, st, p, ty, info)
            st.wcells(p.obj)[p.off] = v
            return v
        z = info.get('zero')
        if z:
            return ZERO if ty[0] == 'i' else (NULL if ty[0] == 'ptr' else Unk('zero'))
        return self.unknown(st, ty, ins, 'uninit:%s+%d' % (p.obj, p.off))

    def load_quiet(self, st, p, ty):
        o = self.obs
        self.obs = self.quiet
        try:
            self.quiet.real = o
            return self.load(st, p, ty, None)
        finally:
            self.obs = o

    def unknown(self, st, ty, ins, why):
        nm = '?%s:%s' % (why, ins.text if ins is not None else '')
        if ty[0] == 'i':
            if ty[1] == 1:
                return atom(L(sym(nm, 0, 1)), ((1, 1),))
            # two's complement unknown, kept unsigned
            return L(sym(nm, 0, (1 << ty[1]) - 1))
        return Unk(nm)

    def storev(self, st, p, v, ins=None):
        if isinstance(p, Iter):
            p = self.models.iter_elem(self, st, p)
        if not isinstance(p, Ptr):
            return
        if p.obj is None or p.nn is not None:
            self.obs.deref(self, st, p, ins, 'store')
            if p.obj is None:
                return
        info = self.objinfo.get(p.obj, {})
        self.obs.on_store(self, st, p, v, ins)
        if info.get('array') or p.idx != ZERO:
            self.models.array_store(self, st, p, v, ins, info)
            return
        if is_cond(v):
            v = self.int(st, v)
        if isinstance(v, Blob):
            c = st.wcells(p.obj)
            for o, x in v.cells:
                c[p.off + o] = x
            return
        st.wcells(p.obj)[p.off] = v

    def alloc(self, st, oid, **info):
        self.objinfo[oid] = info
        st.mem[oid] = {}
        st.own.add(oid)
        return Ptr(oid)

    # -- one instruction
    def step(self, st, ins):
        f = st.top
        op = ins.op
        if op == 'load':
            p = self.val(st, ins.a[0])
            f.regs[ins.res] = self.load(st, p, ins.ty, ins)
            return None
        if op == 'store':
            v = self.val(st, ins.a[0], ins.ty)
            p = self.val(st, ins.a[1])
            self.storev(st, p, v, ins)
            return None
        if op == 'gep':
            base = self.val(st, ins.a[0][1])
            f.regs[ins.res] = self.gep(st, ins.ty, base, ins.a[1:], f.fn.mod)
            return None
        if op == 'call':
            return self.call(st, ins)
        if op == 'icmp':
            pred, a, b = ins.a
            w = ins.ty[1] if ins.ty[0] == 'i' else 64
            f.regs[ins.res] = self.cmp(st, pred, self.val(st, a, ins.ty), self.val(st, b, ins.ty), w)
            return None
        if op == 'cbr':
            c = self.val(st, ins.a[0])
            if not is_cond(c):
                c = atom(self.int(st, c), ((1, INF),)) if isinstance(c, Lin) else atom(L(sym('br:' + ins.text, 0, 1)), ((1, 1),))
            if ins.a[1] == ins.a[2]:
                return self.goto(st, ins.a[1])
            return self.branch(st, c, ins.a[1], ins.a[2])
        if op == 'br':
            return self.goto(st, ins.a[0])
        if op == 'bin':
            f.regs[ins.res] = self.binop(st, ins)
            return None
        if op == 'cast':
            f.regs[ins.res] = self.cast(st, ins)
            return None
        if op == 'alloca':
            oid = ('a', len(st.frames), f.fn.name, ins.res)
            self.alloc(st, oid, kind='alloca', alloca=True, ty=ins.ty, mod=f.fn.mod)
            f.regs[ins.res] = Ptr(oid)
            return None
        if op == 'ret':
            v = self.val(st, ins.a[0], ins.ty) if ins.a[0] is not None else None
            return self.ret(st, v, ins)
        if op == 'phi':
            return None      # evaluated on the edge
        if op == 'select':
            c, a, b = ins.a
            c = self.val(st, c)
            if not is_cond(c):
                c = atom(self.int(st, c), ((1, INF),))
            d = st.store.decide(c)
            va = self.val(st, a, ins.ty); vb = self.val(st, b, ins.ty)
            if va == vb:
                f.regs[ins.res] = va
            elif d is None:
                raise NeedSplit([c, c_not(c)])
            else:
                f.regs[ins.res] = va if d else vb
            return None
        if op == 'switch':
            v = self.int(st, self.val(st, ins.a[0], ins.ty))
            v = self.norm(st, v, ins.ty[1], False)
            outs = {}
            rest = True
            for cv, lab in ins.a[2]:
                cv &= (1 << ins.ty[1]) - 1
                c = atom(v, ((cv, cv),))
                outs[lab] = c_or(outs.get(lab, False), c)
                rest = c_and(rest, c_not(c))
            outs[ins.a[1]] = c_or(outs.get(ins.a[1], False), rest)
            res = []
            live = [(lab, c) for lab, c in outs.items() if st.store.decide(c) is not False]
            if len(live) > 1:
                st.und += 1
            for lab, c in live:
                for s in st.store.assume(c, True):
                    n = st.copy()
                    n.store = s
                    self.goto(n, lab)
                    self.push(n)
            return 'stop'
        if op == 'unreachable':
            self.obs.unreachable(self, st, ins)
            return 'stop'
        if op == 'extractvalue':
            v = self.val(st, ins.a[0])
            if isinstance(v, tuple) and v and v[0] == 'agg':
                f.regs[ins.res] = v[1][ins.a[1][0]]
            else:
                f.regs[ins.res] = self.unknown(st, ('i', 64), ins, 'extract')
            return None
        if op == 'insertvalue':
            v = self.val(st, ins.a[0]); w = self.val(st, ins.a[1])
            d = dict(v[1]) if isinstance(v, tuple) and v and v[0] == 'agg' else {}
            d[ins.a[2][0]] = w
            f.regs[ins.res] = Unk('agg')
            return None
        if op == 'freeze':
            f.regs[ins.res] = self.val(st, ins.a[0], ins.ty)
            return None
        if op == 'atomicrmw':
            f.regs[ins.res] = self.unknown(st, ins.ty, ins, 'rmw')
            p = self.val(st, ins.a[1])
            if isinstance(p, Ptr) and p.obj is not None:
                self.obs.on_store(self, st, p, Unk('rmw'), ins)
                old = st.mem.get(p.obj, {}).get(p.off) if p.idx == ZERO else None
                y = self.val(st, ins.a[2], ins.ty)
                if isinstance(old, Lin) and isinstance(y, Lin) and ins.ty[0] == 'i':
                    f.regs[ins.res] = old
                    new = {'add': lambda: old.add(y), 'sub': lambda: old.add(y, -1), 'xchg': lambda: y}.get(ins.a[0])
                    if not old.t and not y.t:
                        new = new or {'xor': lambda: Lin(old.c ^ y.c), 'or': lambda: Lin(old.c | y.c), 'and': lambda: Lin(old.c & y.c)}.get(ins.a[0])
                    st.wcells(p.obj)[p.off] = self.norm(st, new(), ins.ty[1], False) if new else self.unknown(st, ins.ty, ins, 'rmw')
                elif p.obj in st.mem:
                    st.wcells(p.obj).pop(p.off, None)
            return None
        if op == 'fcmp':
            f.regs[ins.res] = atom(L(sym('fcmp:%s:%s' % (f.fn.name, ins.text), 0, 1)), ((1, 1),))
            return None
        if ins.res is not None:
            f.regs[ins.res] = self.unknown(st, ins.ty or ('i', 64), ins, op)
        return None

    def soft(self, st, c):
        """the branch depends on a value the analysis lost track of: widened
        or joined away (and not mirrored in the observer's state) or unknown"""
        ids = [i for i in cond_syms(c) if SOFT.match(Sym.table[i].name)]
        if ids and self.obs.witness(st):
            # a path followed on its own after the input went bad: values that
            # were the syntax's own when it did, and storage nobody wrote, are
            # not the analysis' loss
            ids = [i for i in ids if not KEPT.match(Sym.table[i].name)]
        if not ids:
            return False
        cells = st.mem.get(SPEC)
        if cells:
            known = set()
            for v in cells.values():
                if isinstance(v, Lin):
                    known |= bases_of(v)
                elif isinstance(v, Vec):
                    known |= bases_of(v.len)
            ids = [i for i in ids if i not in known]
        return bool(ids)

    def branch(self, st, c, a, b):
        d = st.store.decide(c)
        if d is True:
            return self.goto(st, a)
        if d is False:
            return self.goto(st, b)
        st.und += 1
        lk = (len(st.frames), st.top.fn.name, st.top.block)
        if lk in st.loops:
            st.aux[('_v', lk)] = self.UNROLL       # the trip count is not known
        if not st.aux.get('_soft') and not (lk in st.loops and (self.obs.witness(st) or not self.loop_has_events(self.info(st.top.fn), st.top.block))) and self.soft(st, c):
            st.aux['_soft'] = 1
        for truth, lab in ((True, a), (False, b)):
            for s in st.store.assume(c, truth):
                n = st.copy()
                n.store = s
                self.goto(n, lab)
                self.push(n)
        return 'stop'

    def binop(self, st, ins):
        op, a, b, flags = ins.a
        t = ins.ty
        va = self.val(st, a, t); vb = self.val(st, b, t)
        if t[0] != 'i':
            if op in ('fadd', 'fsub', 'fmul', 'fdiv') and isinstance(va, FV) and isinstance(vb, FV):
                return fv(op[1:], va, vb)
            return self.unknown(st, t, ins, 'fp')
        w = t[1]
        if w == 1 or (is_cond(va) and is_cond(vb)):
            ca = self.as_cond(st, va); cb = self.as_cond(st, vb)
            if op == 'and':
                return c_and(ca, cb)
            if op == 'or':
                return c_or(ca, cb)
            if op == 'xor':
                if cb is True:
                    return c_not(ca)
                if cb is False:
                    return ca
                return c_or(c_and(ca, c_not(cb)), c_and(c_not(ca), cb))
        if isinstance(va, Ptr) or isinstance(vb, Ptr):
            return self.ptr_arith(st, op, va, vb, ins)
        x = self.int(st, va); y = self.int(st, vb)
        if flags:
            self.obs.arith(self, st, ins, op, x, y, w, flags)
        if op == 'add':
            return self.fit(st, x.add(y), w)
        if op == 'sub':
            return self.fit(st, x.add(y, -1), w)
        cx = st.store.const(x); cy = st.store.const(y)
        if self.bitmode and (cx is None or cy is None) and (op in ('shl', 'lshr', 'and', 'or', 'xor', 'udiv', 'urem') or (
                op in ('ashr', 'sdiv', 'srem') and st.store.rng(x)[0] >= 0 and st.store.rng(x)[1] < 1 << (w - 1))):
            r = self.bit_op(st, {'ashr': 'lshr', 'sdiv': 'udiv', 'srem': 'urem'}.get(op, op), x, y, w)
            if r is not None:
                return r
        if op == 'mul':
            if cy is not None:
                return self.fit(st, x.scale(cy), w)
            if cx is not None:
                return self.fit(st, y.scale(cx), w)
            for u, v in ((x, y), (y, x)):
                small_values(st, u)
            lo, hi = self.mul_range(st, x, y)
            return L(derived('mul', (x, y) if repr(x) <= repr(y) else (y, x), lo, hi))
        if op == 'shl':
            if cy is not None and 0 <= cy < w:
                if cx is not None:
                    return Lin((cx << cy) & ((1 << w) - 1))
                return self.fit(st, x.scale(1 << cy), w)
            if cy is None:
                vs = st.store.value_set(self.norm(st, y, w, False))
                if cx is not None and is_size(vs) <= 40:
                    raise NeedSplit([atom(y, ((k, k),)) for k in is_values(vs)])
            self.obs.shift(self, st, ins, y, w)
            return L(derived('shl', (x, y), NINF, INF))
        self.obs.divshift(self, st, ins, op, x, y, w)
        if op in ('udiv', 'urem', 'lshr', 'and', 'or', 'xor'):
            x = self.norm(st, x, w, False); y = self.norm(st, y, w, False)
        else:
            x = self.norm(st, x, w, True); y = self.norm(st, y, w, True)
        cx = st.store.const(x); cy = st.store.const(y)
        if cx is not None and cy is not None:
            r = FOLD[op](cx, cy)
            if r is not None:
                return Lin(r)
        xl, xh = st.store.rng(x)
        yl, yh = st.store.rng(y)
        if op == 'and':
            if cy is not None and cy >= 0:
                if cy == (1 << w) - 1:
                    return x
                if (cy & (cy + 1)) == 0 and 0 <= xl and xh <= cy:
                    return x
                if (cy & (cy + 1)) == 0 and xl >= 0:
                    return self.rem(st, x, cy + 1)
            lo, hi = 0, min(xh if xl >= 0 else INF, yh if yl >= 0 else INF)
            if hi >= INF:
                hi = (1 << w) - 1
            return self.mk(op, x, y, lo, hi)
        if op in ('or', 'xor'):
            if cy == 0:
                return x
            if cx == 0:
                return y
            # disjoint bits: a multiple of 2^k or'ed with value < 2^k
            if op == 'or':
                for p, q in ((x, y), (y, x)):
                    ql, qh = st.store.rng(q)
                    if ql >= 0 and qh < INF:
                        k = max(qh, 0).bit_length()
                        if p.t and all(co % (1 << k) == 0 for _, co in p.t) and p.c % (1 << k) == 0:
                            return p.add(q)
            if op == 'xor' and cy == (1 << w) - 1:
                return Lin((1 << w) - 1).add(x, -1)
            hi = (1 << max(xh if xh < INF else (1 << w) - 1, yh if yh < INF else (1 << w) - 1, 0).bit_length()) - 1
            return self.mk(op, x, y, 0, hi)
        if op == 'udiv' or (op == 'sdiv' and xl >= 0 and yl > 0):
            if cy == 1:
                return x
            if cy and cy > 0:
                return self.div(st, x, cy)
            return self.mk('udiv', x, y, 0, xh)
        if op == 'sdiv':
            if cy and cy > 0:
                return self.mk(op, x, y, -((-xl) // cy) if xl > NINF else NINF, xh // cy if xh < INF else INF)
            return self.mk(op, x, y, -(1 << (w - 1)), 1 << (w - 1))
        if op == 'urem' or (op == 'srem' and xl >= 0 and yl > 0):
            if cy and 0 <= xl and xh < cy:
                return x
            if cy:
                return self.rem(st, x, cy)
            return self.mk('urem', x, y, 0, yh - 1 if yh < INF else INF)
        if op == 'srem':
            m = (abs(cy) - 1) if cy else (1 << (w - 1))
            return self.mk(op, x, y, -m, m)
        if op in ('lshr', 'ashr'):
            if cy is not None and 0 <= cy < w:
                k = 1 << cy
                if x.t and all(q % k == 0 for _, q in x.t) and x.c % k == 0:
                    return Lin(x.c // k, tuple((i, q // k) for i, q in x.t))
                if xl >= 0:
                    return self.div(st, x, k)
                return self.mk('ashr', x, y, xl >> cy if xl > NINF else NINF, xh >> cy if xh < INF else INF)
            return self.mk(op, x, y, min(xl, 0), xh if xh < INF else INF)
        return self.unknown(st, t, ins, op)

    bitmode = False

    def bits(self, st, x, w):
        """x as w bits, least significant first (0, 1 or 2 + symbol id), or None:
        a sum of distinct powers of two times 0/1 symbols"""
        out = [0] * w
        c = x.c
        if c < 0:
            if x.t:
                return None
            c &= (1 << w) - 1
        terms = []
        for i, q in x.t:
            y = Sym.table[i]
            if q <= 0 or q & (q - 1):
                return None
            k = q.bit_length() - 1
            if y.lo >= 0 and y.hi <= 1:
                terms.append((k, i))
            elif y.lo >= 0 and y.hi == 255 and y.name.startswith('raw('):
                for j in range(8):
                    terms.append((k + j, derived('bit', (L(y), j), 0, 1).id))
            else:
                return None
        for k, i in terms:
            if k < w:
                if out[k] != 0:
                    return None
                out[k] = i + 2
        for k in range(w):
            if c >> k & 1:
                if out[k] != 0:
                    return None
                out[k] = 1
        return out

    def unbits(self, b):
        c = sum(1 << k for k, v in enumerate(b) if v == 1)
        return Lin(c, tuple(sorted((v - 2, 1 << k) for k, v in enumerate(b) if v > 1)))

    def bit_op(self, st, op, x, y, w):
        a = self.bits(st, x, w)
        if a is None:
            return None
        if op in ('shl', 'lshr', 'udiv', 'urem'):
            k = st.store.const(y)
            if k is None or k < 0:
                return None
            if op in ('udiv', 'urem'):
                if k == 0 or k & (k - 1):
                    return None
                k = k.bit_length() - 1
                if op == 'urem':
                    return self.unbits(a[:k])
            if k >= w:
                return None
            return self.unbits(([0] * k + a)[:w] if op == 'shl' else a[k:])
        b = self.bits(st, y, w)
        if b is None:
            return None
        out = []
        for u, v in zip(a, b):
            if op == 'and':
                r = 0 if u == 0 or v == 0 else (v if u == 1 else (u if v == 1 or u == v else None))
            elif op == 'or':
                r = 1 if u == 1 or v == 1 else (v if u == 0 else (u if v == 0 or u == v else None))
            else:
                r = v if u == 0 else (u if v == 0 else (0 if u == v else (1 - v if u == 1 and v in (0, 1) else None)))
            if r is None:
                r = derived('b' + op, tuple(sorted((self.bitarg(u), self.bitarg(v)), key=repr)), 0, 1).id + 2
            out.append(r)
        return self.unbits(out)

    def bitarg(self, u):
        return Lin(u) if u < 2 else L(Sym.table[u - 2])

    def bit_value(self, u, env):
        """a bit (0, 1 or 2 + symbol id) under values of the symbols"""
        if u < 2:
            return u
        e = Sym.table[u - 2].expr
        if e is None or e[0] not in ('band', 'bor', 'bxor'):
            return env[u]
        x, y = (self.bit_value(a.t[0][0] + 2 if a.t else a.c, env) for a in e[1])
        return x & y if e[0] == 'band' else x | y if e[0] == 'bor' else x ^ y

    def bit_leaves(self, u):
        if u < 2:
            return set()
        e = Sym.table[u - 2].expr
        if e is None or e[0] not in ('band', 'bor', 'bxor'):
            return {u}
        return set().union(*(self.bit_leaves(a.t[0][0] + 2 if a.t else a.c) for a in e[1]))

    def same_bits(self, st, a, b):
        """equal for all values of the symbols they are made of; None: too many"""
        for u, v in zip(a, b):
            if u == v:
                continue
            l, known = [], {}
            for x in sorted(self.bit_leaves(u) | self.bit_leaves(v)):
                c = st.store.const(L(Sym.table[x - 2]))
                if c is None:
                    l.append(x)
                else:
                    known[x] = c
            if len(l) > 12:
                return None
            for k in range(1 << len(l)):
                env = dict(known)
                env.update((x, k >> i & 1) for i, x in enumerate(l))
                if self.bit_value(u, env) != self.bit_value(v, env):
                    return False
        return len(a) == len(b)

    def fit(self, st, lin, w):
        """keep representatives from drifting: constants are reduced mod 2^w when out of both ranges"""
        if not lin.t:
            c = lin.c
            m = 1 << w
            if not (-(m >> 1) <= c < m):
                c &= m - 1
                return Lin(c)
            return lin
        return lin

    def mul_range(self, st, x, y):
        xl, xh = st.store.rng(x); yl, yh = st.store.rng(y)
        if min(xl, yl) <= NINF or max(xh, yh) >= INF:
            return NINF, INF
        ps = [xl * yl, xl * yh, xh * yl, xh * yh]
        return min(ps), max(ps)

    def div(self, st, x, k):
        """x / k for 0 <= x: multiples of k are divided exactly"""
        hi_t = tuple((i, q // k) for i, q in x.t if q % k == 0)
        lo_t = tuple((i, q) for i, q in x.t if q % k)
        r = Lin(x.c % k, lo_t)
        if hi_t or x.c >= k or x.c < 0:
            if st.store.rng(r)[0] < 0 and st.store.rng(Lin(x.c, lo_t))[0] >= 0:
                r = Lin(x.c, lo_t)
            if st.store.rng(r)[0] >= 0:
                d = (x.c - r.c) // k
                return Lin(d, hi_t).add(self.div1(st, r, k))
        return self.div1(st, x, k)

    def div1(self, st, x, k):
        lo, hi = st.store.rng(x)
        if 0 <= lo and hi < k:
            return ZERO
        return self.mk('udiv', x, Lin(k), lo // k, hi // k if hi < INF else INF)

    def rem(self, st, x, k):
        """x % k for 0 <= x"""
        r = Lin(x.c % k, tuple((i, q) for i, q in x.t if q % k))
        if st.store.rng(r)[0] < 0:
            r = Lin(x.c, r.t)
        if st.store.rng(r)[0] < 0:
            r = x
        if st.store.rng(r)[1] < k and st.store.rng(r)[0] >= 0:
            return r
        return self.mk('urem', r, Lin(k), 0, k - 1)

    def mk(self, op, x, y, lo, hi):
        return L(derived(op, (x, y), lo, hi))

    def ptr_arith(self, st, op, a, b, ins):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            es = self.elemsize(a.obj, 1) or 1
            return a.idx.add(b.idx, -1).scale(es).addc(a.off - b.off)
        return self.unknown(st, ins.ty, ins, 'parith')

    def as_cond(self, st, v):
        if is_cond(v):
            return v
        v = self.int(st, v)
        return self.cmp(st, 'ne', v, ZERO, 64) if st.store.rng(v)[0] < 0 else atom(v, ((1, INF),))

    def cast(self, st, ins):
        op, t, a = ins.a
        v = self.val(st, a, t)
        t2 = ins.ty
        if op in ('zext', 'sext', 'trunc'):
            if t2[0] != 'i' or t[0] != 'i':
                return self.unknown(st, t2, ins, 'cast')
            if op == 'zext':
                if is_cond(v):
                    return self.int(st, v)
                return self.norm(st, self.int(st, v), t[1], False)
            if op == 'sext':
                if is_cond(v):
                    return self.int(st, v).scale(-1)
                return self.norm(st, self.int(st, v), t[1], True)
            if t2[1] == 1:
                if is_cond(v):
                    return v
                x = self.int(st, v)
                lo, hi = st.store.rng(x)
                if 0 <= lo and hi <= 1:
                    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
                        y = Sym.table[x.t[0][0]]
                        if y.expr is not None and y.expr[0] == 'b2i':
                            return y.expr[1][0]
                    return atom(x, ((1, 1),))
                return atom(self.mk('and', x, ONE, 0, 1), ((1, 1),))
            if is_cond(v):
                return self.int(st, v)
            x = self.int(st, v)
            lo, hi = st.store.rng(x)
            m = 1 << t2[1]
            if -(m >> 1) <= lo and hi < m:
                return x
            return self.norm(st, x, t2[1], False)
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'ptrtoint':
            return v
        if op == 'inttoptr':
            return v if isinstance(v, Ptr) else Unk('inttoptr')
        if op in ('uitofp', 'sitofp') and not isinstance(v, (Ptr, Unk)):
            x = self.norm(st, self.int(st, v), t[1], op == 'sitofp')
            c = st.store.const(x)
            if c is not None:
                return FV('c', (float(c),))
            small_values(st, x, 8)
            return FV('i', (x,))
        if op in ('fpext', 'fptrunc') and isinstance(v, FV):
            return v
        if op in ('fptoui', 'fptosi') and isinstance(v, FV):
            if v.op == 'c':
                return Lin(int(v.args[0]))
            return L(derived(op, (v,), *vrange(t2[1], op == 'fptosi')))
        if op in ('fptoui', 'fptosi'):
            return L(sym('%s:%s' % (op, st.top.fn.name + ins.text), *vrange(t2[1], op == 'fptosi')))
        return Unk('%s:%s' % (op, ins.text))

    # -- calls
    def call(self, st, ins):
        f = st.top
        callee, args = ins.a
        name = callee[1] if callee[0] == 'g' else None
        if name is None:
            return self.opaque_call(st, ins, '<indirect>', args)
        if name.startswith('llvm.'):
            return self.models.intrinsic(self, st, ins, name, args)
        r = self.obs.call(self, st, ins, name, self.prog.dem(name), args)
        if r != 'nomodel':
            return r
        r = self.models.dispatch(self, st, ins, name, args)
        if r != 'nomodel':
            return r
        fn = self.prog.resolve(f.fn.mod, name)
        dem = self.prog.dem(name)
        if fn is not None and self.should_enter(fn, dem):
            return self.enter(st, ins, fn, [self.val(st, v, t) for t, v, _ in args], dest=ins.res)
        return self.opaque_call(st, ins, dem, args)

    def should_enter(self, fn, dem):
        if re.match(r'^(std::|__gnu_cxx::|operator |void std::|bool std::|decltype|typename std|std$)', dem) or '__gnu_cxx' in dem.split('(')[0]:
            fn.parse()
            n = sum(len(b) for b in fn.blocks.values())
            return n <= 60 and not self.info(fn).loop_end
        return True

    def enter(self, st, ins, fn, vals, dest=None, hook=None):
        fn.parse()
        if len(st.frames) > 40:
            raise Undecided('call depth')
        for fr in st.frames:
            if fr.fn is fn:
                raise Undecided('recursion into %s' % fn.name)
        self.callees.add(fn.name)
        regs = {}
        for (t, n, at), v in zip(fn.params, vals):
            regs[n] = v
        nf = Frame(fn, fn.order[0], 0, regs, None, dest, hook, len(st.frames))
        self.prune_call(st, ins)
        st.frames = st.frames + [nf]
        self.visited.add((fn.name, nf.block))
        if fn.order[0] in self.info(fn).loop_end:
            raise Undecided('loop at entry')
        return [st]

    def prune_call(self, st, ins):
        f = st.top
        fi = self.info(f.fn)
        live = fi.live_at(f.block, f.idx + 1)
        f.regs = {r: v for r, v in f.regs.items() if r in live or r in fi.allocas}
        keep = set()
        for t, v, at in ins.a[1]:
            if v[0] == 'l':
                keep.add(v[1])
        d = len(st.frames)
        for a in fi.scalars:
            if ('cell', a) not in live and a not in keep:
                o = ('a', d, f.fn.name, a)
                c = st.mem.get(o)
                if c:
                    st.mem[o] = {}
                    st.own.add(o)

    def ret(self, st, v, ins):
        fr = st.top
        if len(st.frames) == 1:
            self.obs.returned(self, st, v, ins)
            self.done.append(st)
            return 'stop'
        # pop
        depth = len(st.frames)
        for o in [o for o in st.mem if o[0] == 'a' and o[1] == depth]:
            del st.mem[o]
            st.own.discard(o)
        if any(k[0] == depth for k in st.loops):
            for k in [k for k in st.loops if k[0] == depth]:
                self.leave_loop(st, k)
        st.frames = st.frames[:-1]
        st.frames[-1] = st.frames[-1].copy()
        f = st.top
        if fr.dest is not None:
            f.regs[fr.dest] = v if v is not None else Unk('void')
        if fr.hook is not None:
            self.models.run_hook(self, st, fr.hook, v)
        f.idx += 1
        self.prune(st)
        # merge point: continue through the scheduler
        self.push(st)
        return 'stop'

    def opaque_call(self, st, ins, dem, args):
        self.opaque_calls[dem] = self.opaque_calls.get(dem, 0) + 1
        self.obs.opaque(self, st, ins, dem, args)
        if not self.models.is_pure(dem):
            consumed(st, 2)
        for t, v, at in args:
            if t == ir.PTR and v[0] == 'l':
                p = self.val(st, v)
                if isinstance(p, Ptr) and p.obj is not None and p.obj[0] in ('a', 'h') and 'readonly' not in at:
                    if self.models.is_pure(dem):
                        continue
                    c = st.mem.get(p.obj)
                    if c:
                        st.mem[p.obj] = {}
                        st.own.add(p.obj)
        if ins.res is not None:
            st.top.regs[ins.res] = self.unknown(st, ins.ty, ins, 'call:%s' % st.top.fn.name)
        return None


class Observer:
    """base observer: no specification"""
    stream = False      # reads from a bit buffer whose position is not in memory
    unroll = False      # unroll loops whose head test is decided although other branches are not

    def softness(self, st):
        return {}

    def part_key(self, st):
        return None

    def expand(self, m, st):
        return [st]

    def merge_ok(self, a, b):
        return True

    def apart(self, st):
        return 12

    def force_merge(self, st):
        return True

    def spec_default(self, k, others):
        return ZERO

    def loop_stable(self, m, ctx):
        pass

    def retract(self, cid):
        pass

    def at_loop_head(self, m, st, guard):
        return None

    def pre_merge(self, a, b):
        pass

    def aux_mergeable(self, a, b):
        ka = {k: v for k, v in a.aux.items() if not (isinstance(k, tuple) and k[0] in ('_u', '_v', '_i', '_p')) and k != '_unroll'}
        kb = {k: v for k, v in b.aux.items() if not (isinstance(k, tuple) and k[0] in ('_u', '_v', '_i', '_p')) and k != '_unroll'}
        return ka == kb

    def merge_aux(self, a, b):
        r = dict(a.aux)
        for k, v in b.aux.items():
            if isinstance(k, tuple) and k[0] == '_u':
                r[k] = -1 if r.get(k, v) != v else v
            elif isinstance(k, tuple) and k[0] == '_i' and r.get(k) != v:
                r[k] = 2
        return r

    def deref(self, m, st, p, ins, kind):
        pass

    def on_store(self, m, st, p, v, ins):
        pass

    def arith(self, m, st, ins, op, x, y, w, flags):
        pass

    def shift(self, m, st, ins, y, w):
        pass

    def divshift(self, m, st, ins, op, x, y, w):
        pass

    def unreachable(self, m, st, ins):
        pass

    def returned(self, m, st, v, ins):
        pass

    def opaque(self, m, st, ins, dem, args):
        pass

    def call(self, m, st, ins, name, dem, args):
        return 'nomodel'

    def lazy_value(self, m, st, full, td, ty, info, fname):
        return None

    def index(self, m, st, p, v, ins, kind):
        pass

    def index_addr(self, m, st, p, v, ins):
        pass

    def raw_load(self, m, st, p, ty, ins, info):
        return L(sym('raw(%s,%r)' % (info.get('name'), p.idx), 0, (1 << ty[1]) - 1)) if ty[0] == 'i' else Unk('raw')

    def raw_store(self, m, st, p, v, ins, info):
        pass

    def raw_copy(self, m, st, p, n, ins, info):
        return None

    def elem_read(self, m, st, v, vp, p, ty, ins):
        return m.unknown(st, ty if ty[0] != 'vec' else ('i', 64), ins, 'elem')

    def inner_key(self, m, st, k, idx, vec):
        return k

    def provenance(self, m, st, v, idx, vec, write=False):
        if isinstance(v, Ptr):
            return ('ptr', v.obj)
        return ('val',)

    def map_find(self, m, st, ins, mn, k, dem):
        pass

    def map_index(self, m, st, ins, mn, k, meth, dem):
        pass

    def map_mutate(self, m, st, ins, mn, meth, A, dem):
        pass

    def iter_deref(self, m, st, it, ins):
        pass

    def alloc_size(self, m, st, ins, n):
        pass

    def grow(self, m, st, ins, vp, v):
        pass

    def memcpy(self, m, st, ins, d, s, n):
        pass

    def witness(self, st):
        """family of st if one path of that family is all that is looked for, else None"""
        return None

    def elem_fields(self, m, st, p, n):
        """(offset, width) of the integers in the n bytes of vector element p"""
        return ()

    def abort(self, m, st, ins, name):
        pass

    def output(self, m, st, ins, name, vals, args):
        pass


class Quiet(Observer):
    """no obligations; lazily symbolic values still come from the real observer"""
    real = None

    def lazy_value(self, *a):
        return self.real.lazy_value(*a)
