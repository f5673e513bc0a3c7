"""Loops over a byte buffer, decided with a finite window abstraction.

A ghost position says how much of the input the specification has consumed.
At a loop head the state is reduced to: every live cell relative to that
position (or constant, or an input), the set of classes each byte near the
position may be in, and whether the position is near the end.  States with the
same reduction are explored once, so the exploration covers buffers of every
length and content.  A value that cannot be expressed that way is opaque, and
nothing that depends on it is reported."""
import re

import interp as I
import models as M
import spec
from contract import *
from dom import *

CLASSES = (((0, 0),), ((1, 1),), ((2, 2),), ((3, 3),), ((4, 255),))
WIN = range(-4, 5)
POSMAX = 12           # positions below this are kept exact
NEAR = 6
CAP = 4
MARK = (('indices',),)


def is_opaque(i):
    y = Sym.table[i]
    return y.name.startswith('u!') or (y.expr is not None and any(Sym.table[b].name.startswith('u!') for b in y.bases))


class ScanMachine(I.Machine):
    MAX_STEPS = 60000

    def loop_arrive(self, st, fi, block):
        return self.obs.head(self, st, fi, block)


class Scan(Obs):
    """observer with ghost cells st.mem[SPEC]: 'pos' and others"""
    window = WIN
    classes = CLASSES
    entries = True      # element pointers follow the number of entries

    def __init__(self, name, post=None, handlers=None):
        super().__init__(name, post, handlers)
        self.seen = {}
        self.reg = {}           # symbol id -> (buffer, index)
        self.inputs = set()
        self.length = None
        self.heads = set()
        self.consts = {}        # constants seen in a cell at a loop head

    # ---- ghost
    def g(self, st, k):
        return st.mem[I.SPEC].get(k)

    def setg(self, st, k, v):
        st.wcells(I.SPEC)[k] = v

    # ---- bytes
    def byte(self, name, k, hi=255):
        y = sym('raw(%s,%r)' % (name, k), 0, hi)
        self.reg[y.id] = (name, k, hi)
        return L(y)

    def raw_load(self, m, st, p, ty, ins, info):
        n = ty[1] // 8 if ty[0] == 'i' else 8
        self.bound(m, st, p, n, ins, info)
        if ty[0] != 'i' or n not in (1, 2, 4, 8):
            return m.unknown(st, ty, ins, 'raw')
        k = p.idx.addc(p.off)
        v = ZERO
        for j in range(n):
            v = v.add(self.byte(info['name'], k.addc(j)), 1 << (8 * j))
        return v

    def raw_copy(self, m, st, p, n, ins, info):
        if n in (1, 2, 4, 8):
            return self.raw_load(m, st, p, ('i', 8 * n), ins, info)
        self.bound(m, st, p, n, ins, info)

    def isb(self, st, k, c, name='data'):
        """three-valued: byte k is c"""
        return st.store.decide(atom(self.byte(name, k), ((c, c),)))

    def allof(self, *ds):
        if any(d is False for d in ds):
            return False
        return True if all(d is True for d in ds) else None

    # ---- opaque values
    def opaque_ids(self, st):
        return any(is_opaque(i) for f in st.store.d for i, _ in f)

    def bad(self, m, st, key, msg, ins=None, *vals):
        soft = st.aux.get('_imprecise', 0) or self.opaque_ids(st)
        for v in vals:
            if isinstance(v, Lin) and any(is_opaque(i) for i, _ in v.t):
                soft = 1
            elif not isinstance(v, (Lin, I.Ptr)):
                soft = 1
        self.fail(m, st, key, msg, ins, 1 if soft else 0)

    def tainted(self, *vals):
        return any(isinstance(v, Lin) and any(is_opaque(i) for i, _ in v.t) for v in vals)

    def arith(self, m, st, ins, op, x, y, w, flags):
        if not self.tainted(x, y):
            return super().arith(m, st, ins, op, x, y, w, flags)

    def shift(self, m, st, ins, y, w):
        if not self.tainted(y):
            return super().shift(m, st, ins, y, w)

    def report(self, m, st, cat, key, msg, ins=None, soft=None):
        if soft is None:
            soft = st.aux.get('_imprecise', 0) or self.opaque_ids(st)
        super().report(m, st, cat, key, msg, ins, 1 if soft else 0)

    def alloc_size(self, m, st, ins, n):
        if self.tainted(n) or not isinstance(n, Lin) or self.length is None:
            return
        if not all(i in self.reg or i in self.inputs for i, _ in n.t):
            return
        for s in st.store.assume(atom(self.length, ((0, 1 << 10),)), True):
            if s.rng(n)[1] > (1 << 20):
                self.report(m, st, 'ALLOC', ('alloc', st.top.fn.name), 'allocates %r elements, which is not bounded by the input' % (n,), ins)
                return

    # ---- loop heads
    def advance(self, m, st):
        pass

    def head(self, m, st, fi, block):
        f = st.top
        loc = (tuple((x.fn.name, x.block, x.idx) for x in st.frames), block)
        self.heads.add(loc)
        self.stats['iterations'] += 1
        self.stuck(m, st, loc, fi, block)
        self.advance(m, st)
        key, new = self.reduce(m, st, loc)
        s = self.seen.setdefault(loc, set())
        if key in s:
            return None
        if any(not v['imprecise'] for v in self.violations):
            return None         # what is found so far stands whatever else is reachable
        if len(s) > 3000:
            if 'too many states' not in self.undecided:
                self.undecided.append('too many states')
            return None
        s.add(key)
        new.aux = {k: v for k, v in new.aux.items() if not (isinstance(k, tuple) and k[0] == '_snap')}
        new.aux['_at'] = loc
        self.snap(new, loc)
        return new

    def snap(self, st, loc):
        c = st.copy()
        c.aux = {}
        st.aux[('_snap', loc)] = c

    def stuck(self, m, st, loc, fi, block):
        """back at a loop head with nothing changed since the last time"""
        h = st.aux.get(('_snap', loc))
        if h is None or st.top.prev not in fi.loop_body[block] or len(h.frames) != len(st.frames):
            return
        ch, _ = m.changes(st, h, fi, block, (I.SPEC,))
        if not ch:
            self.report(m, st, 'PROGRESS', ('stuck', st.top.fn.name), 'an iteration of this loop can change nothing: it never ends', fi.fn.blocks[block][-1])

    def stale(self, m, st, loc):
        """locals of the top frame that only the loop body uses: what they hold
        at the head is left from an earlier iteration"""
        return m.info(st.top.fn).stale(loc[1])

    def narrow(self, m, st, o):
        """a local integer of fewer than 64 bits: a constant in it is not a position"""
        if o[0] != 'a' or o[1] > len(st.frames):
            return False
        k = ('narrow', o[2], o[3])
        if k not in self.consts:
            fn = st.frames[o[1] - 1].fn
            self.consts[k] = any(i.op == 'alloca' and i.res == o[3] and i.ty[0] == 'i' and i.ty[1] < 64 for b in fn.order for i in fn.blocks[b])
        return self.consts[k]

    def reduce(self, m, st, loc):
        P = self.g(st, 'pos')
        W = None
        tag = '%s#%d' % (self.name, len(loc[0]))
        shift = None
        exact = not P.t and P.c < POSMAX
        if not exact:
            W = L(sym('pos!' + tag, 0, 1 << 48))
            self.inputs_pos = W
        N = self.g(st, 'n')
        WN = None
        if N is not None and (N.t or N.c >= 1):
            WN = L(sym('n!' + tag, 1, 1 << 48))
        psyms = {i for i, _ in P.t}
        nsyms = {i for i, _ in N.t} if N is not None else set()
        ghosts = {v for k, v in st.mem[I.SPEC].items() if isinstance(v, Lin)}
        us = {}

        def opaque(v):
            """value outside the abstraction, numbered so that equal values stay equal"""
            if v not in us:
                us[v] = L(sym('%s%d!%s' % ('t!' if v in ghosts else 'u!', len(us), tag), 0, (1 << 64) - 1))
            return us[v]

        def rename(i, soft):
            """symbol i after the change of base, or None"""
            if i in self.inputs:
                return Lin(0, ((i, 1),))
            r = self.reg.get(i)
            if r is not None:
                k = r[1]
                k2 = lin(k, False)
                if k2 is not None:
                    return self.byte(r[0], k2, r[2])
            return None

        def lin(v, top=True, narrow=False):
            if exact:
                base = v
                q = 0
            else:
                q = 0
                if P.t:
                    i0, q0 = next(((i, c) for i, c in P.t if i not in self.reg), P.t[0])
                    c0 = v.coef(i0)
                    q = c0 // q0 if c0 % q0 == 0 else 0
                elif not v.t and abs(v.c - P.c) <= NEAR and not narrow:
                    q = 1
                base = v.add(P, -q)
            if N is not None and WN is not None and N.t and base.coef(N.t[0][0]) == 1:
                base = base.add(N, -1)
                out = WN
            else:
                out = ZERO
            if q:
                out = out.add(W, q)
            out = out.addc(base.c)
            for i, c in base.t:
                if (i in psyms and i not in self.inputs and not exact) or i in nsyms:
                    y = None
                else:
                    y = rename(i, top)
                if y is None:
                    return opaque(v) if top else None
                out = out.add(y, c)
            if not exact and 64 < abs(out.c) < 1 << 16 and q:
                return opaque(v) if top else None
            return out

        def nlin(v):
            """a count: relative to the number of entries"""
            if WN is not None:
                d = v.add(N, -1)
                if not d.t and abs(d.c) <= NEAR:
                    return WN.addc(d.c)
            return lin(v)

        def val(v, at=None):
            if isinstance(v, Lin):
                r = lin(v, narrow=at is not None and self.narrow(m, st, at[0]))
                if at is not None and not r.t and r.c > 7:
                    h = self.consts.setdefault((loc, at), set())
                    h.add(r.c)
                    if len(h) > 8 and not exact:
                        # a counter: from here on only its lower bound is kept
                        return L(sym('u!%r!%s' % (at, tag), 8, (1 << 64) - 1))
                return r
            if I.is_cond(v):
                d = st.store.decide(v)
                if d is not None:
                    return d
                return atom(opaque(L(derived('b2i', (v,), 0, 1))), ((1, 1),))
            if isinstance(v, I.Ptr):
                if v.obj is None:
                    return v
                nn = v.nn
                if nn is not None:
                    d = st.store.decide(atom(Lin(0, ((nn, 1),)), ((1, 1),)))
                    if d is False:
                        return I.NULL
                    if d is True:
                        nn = None
                e = isinstance(v.obj, tuple) and v.obj[0] == 'e'
                return I.Ptr(v.obj, nlin(v.idx) if e and self.entries else lin(v.idx), v.off, nn)
            if isinstance(v, I.Vec):
                last = None
                if v.last is not None:
                    x = v.last[1]
                    if isinstance(x, tuple) and x[0] == 'struct':
                        x = ('struct', x[1], tuple((o, opaque(y) if isinstance(y, Lin) and y != ZERO else val(y)) for o, y in x[2]))
                    else:
                        x = val(x)
                    last = (nlin(v.last[0]), x)
                return I.Vec(nlin(v.len), v.items if v.items == MARK else (), last, v.sname)
            if isinstance(v, tuple) and v and v[0] == 'struct':
                return ('struct', v[1], tuple((o, val(x)) for o, x in v[2]))
            if isinstance(v, I.Blob):
                return I.Blob((o, val(x)) for o, x in v.cells)
            return v

        new = st.copy()
        new.loops = {}
        new.tags = {}
        mem = {}
        facts = []
        depth = len(st.frames)
        stale = self.stale(m, st, loc)

        def old(v):
            if isinstance(v, Lin):
                return L(sym('u!stale', 0, (1 << 64) - 1))
            return I.Unk('stale') if isinstance(v, (I.Ptr, I.Unk)) and not (isinstance(v, I.Ptr) and v.obj is None) else v
        order = [I.SPEC] + sorted((o for o in st.mem if o != I.SPEC), key=str)
        for o in order:
            c = st.mem[o]
            if o == I.SPEC:
                n = {}
                for k in sorted(c, key=str):
                    v = c[k]
                    if k == 'pos':
                        n[k] = P if exact else W
                    elif k == 'n':
                        n[k] = v if WN is None else WN
                    elif k == 'prev':
                        n[k] = opaque(v)
                    else:
                        n[k] = val(v)
            elif o[0] == 'a' and o[1] == depth and o[3] in stale:
                n = {k: (old(v) if isinstance(v, (Lin, I.Ptr, I.Unk)) else val(v)) for k, v in sorted(c.items(), key=str) if not isinstance(k, Lin)}
            else:
                n = {k: (val(c[k], (o, k)) if not (isinstance(k, tuple) and k[0] == 'buf') else c[k]) for k in sorted(c, key=str) if not isinstance(k, Lin)}
            mem[o] = n
        new.mem = mem
        new.own = set()
        nf = []
        for f in st.frames:
            f2 = f.copy()
            f2.regs = {r: val(v) for r, v in f.regs.items()}
            nf.append(f2)
        new.frames = nf
        # facts
        s = Store()

        def want(c):
            nonlocal s
            r = s.assume(c, True)
            if r:
                s = r[0]
        P2 = P if exact else W
        if not exact:
            lo = max(0, min(st.store.rng(P)[0], POSMAX))
            want(atom(W, ((lo, 1 << 48),)))
            facts.append(('lo', lo))
        if self.length is not None:
            a, b = st.store.rng(self.length.add(P, -1))
            a = max(-CAP, min(a, CAP))
            if b > CAP:
                b = INF
            facts.append(('rem', a, b))
            want(atom(self.length.add(P2, -1), ((a, b),)))
        for u, t in us.items():
            if Sym.table[t.t[0][0]].name.startswith('t!'):
                d = 0 if st.store.rng(P.add(u, -1))[0] >= 0 else NINF
                facts.append(('behind', t, d))
                want(atom(P2.add(t, -1), ((d, INF),)))
        if True:
            for d in self.window:
                y = Sym.named.get('raw(data,%r)' % (P.addc(d),))
                if y is None:
                    continue
                vs = st.store.value_set(L(y))
                mask = tuple(i for i, c in enumerate(self.classes) if is_and(vs, c) != EMPTY)
                if len(mask) == len(self.classes):
                    continue
                facts.append((d, mask))
                u = EMPTY
                for i in mask:
                    u = is_or(u, self.classes[i])
                want(atom(self.byte('data', P2.addc(d)), u))
        self.more_facts(m, st, P, P2, val, facts, want)
        new.store = s
        key = (tuple((repr(o), tuple((repr(k), repr(v)) for k, v in sorted(c.items(), key=str))) for o, c in sorted(mem.items(), key=str)),
               tuple(tuple(sorted((r, repr(v)) for r, v in f.regs.items())) for f in nf), repr(facts),
               repr(sorted(((k, v) for k, v in st.aux.items() if k not in ('_at', '_red', '_same') and not (isinstance(k, tuple) and k[0] in ('_u', '_v', '_i', '_unroll', '_snap'))), key=str)))
        return key, new

    def more_facts(self, m, st, P, P2, val, facts, want):
        pass


def scan_run(prog, fn, o, bitmode=False):
    r = Run(prog, fn, o, bitmode, ScanMachine)
    r.st.mem[I.SPEC] = {'pos': ZERO}
    r.st.own.add(I.SPEC)
    n = L(sym('length', 0, 1 << 40))
    o.length = n
    o.inputs.add(n.t[0][0])
    return r, n, r.raw('data', n)


# ------------------------------------------------------------------ UnescapeRbsp
class Unescape(Scan):
    def drop(self, st, k):
        """byte k is an emulation prevention byte: 03 after 00 00"""
        if st.store.rng(k)[1] < 2:
            return False
        return self.allof(self.isb(st, k.addc(-2), 0), self.isb(st, k.addc(-1), 0), self.isb(st, k, 3))

    def advance(self, m, st):
        p = self.g(st, 'pos')
        while self.drop(st, p) is True:
            p = p.addc(1)
        self.setg(st, 'pos', p)
        return p


def unescape(prog):
    def push(o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        if 'unsigned char' not in dem or not isinstance(A[0], I.Ptr):
            return 'nomodel'
        if M.get_vec(m, st, A[0]) is None or not st.store.eq(M.get_vec(m, st, A[0]).len, o.g(st, 'n')):
            o.undecided.append('UnescapeRbsp: pushes to another vector')
            return 'stop'
        return emit(o, m, st, ins, M.load_ref(m, st, A[1], 'unsigned char', ins)) or 'nomodel'

    def emit(o, m, st, ins, v):
        p = o.advance(m, st)
        if not isinstance(v, Lin):
            o.undecided.append('UnescapeRbsp: pushes %r' % (v,))
            return 'stop'
        if not st.store.eq(v, o.byte('data', p)):
            r = len(v.t) == 1 and o.reg.get(v.t[0][0])
            o.bad(m, st, ('push',), 'UnescapeRbsp() emits %s where the next byte of the unescaped data is byte %r' % (('byte %r' % (r[1],)) if r else repr(v), p), ins, v)
            return 'stop'
        if o.drop(st, p) is not False:
            o.bad(m, st, ('keep',), 'UnescapeRbsp() emits byte %r without excluding that it is an emulation prevention byte' % (p,), ins, v)
            return 'stop'
        o.setg(st, 'pos', p.addc(1))
        o.setg(st, 'n', o.g(st, 'n').addc(1))

    def insert(o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        vec = M.get_vec(m, st, A[0]) if isinstance(A[0], I.Ptr) else None
        k = None
        if vec is not None and len(A) == 4 and all(isinstance(a, I.Ptr) for a in A) and A[2].obj == A[3].obj == ('r', 'data') and M.elems_ptr(m, A[0], vec.len) == A[1]:
            k = st.store.const(A[3].idx.add(A[2].idx, -1).addc(A[3].off - A[2].off))
        if k is None or not 0 <= k <= 4 or not st.store.eq(vec.len, o.g(st, 'n')):
            o.undecided.append('UnescapeRbsp: inserts a range')
            return 'stop'
        for j in range(k):
            v = o.raw_load(m, st, I.Ptr(A[2].obj, A[2].idx.addc(j), A[2].off), ('i', 8), ins, m.objinfo[A[2].obj])
            if emit(o, m, st, ins, v):
                return 'stop'
        M.set_vec(m, st, A[0], I.Vec(vec.len.addc(k), (), None, vec.sname))
        return M.done(m, st, ins, I.Unk('it'))

    def post(o, m, st, v, ins):
        vec = M.get_vec(m, st, o.ret_slot)
        p = o.advance(m, st)
        if vec is None or not st.store.eq(vec.len, o.g(st, 'n')):
            o.undecided.append('UnescapeRbsp: returns %r' % (vec,))
        elif not st.store.eq(p, o.length):
            o.bad(m, st, ('end',), 'UnescapeRbsp() ends after byte %r of %r' % (p, o.length), ins)
    o = Unescape('UnescapeRbsp', post, {'std::vector::push_back': push, 'std::vector::emplace_back': push, 'std::vector::insert': insert})
    r, n, data = scan_run(prog, find(prog, 'h264nal::UnescapeRbsp'), o)
    r.st.mem[I.SPEC]['n'] = ZERO
    return r.go(data, n)


# ------------------------------------------------------------------ start codes
BP = 'h264nal::H264BitstreamParser::'


class StartCodes(Scan):
    """pos: every start code before pos is in the result; prev: payload start of
    the last entry; n: number of entries"""
    window = range(-3, 4)
    classes = (((0, 0),), ((1, 1),), ((2, 255),))

    def match(self, st, k):
        return self.allof(self.isb(st, k, 0), self.isb(st, k.addc(1), 0), self.isb(st, k.addc(2), 1))

    def advance(self, m, st):
        p = self.g(st, 'pos')
        n = 0
        while n < 8 and self.match(st, p) is False:
            p = p.addc(1)
            n += 1
        self.setg(st, 'pos', p)
        return p


def find_indices(prog):
    F = 'FindNaluIndices'

    def fields(x):
        d = dict(x[2]) if isinstance(x, tuple) and x[0] == 'struct' else {}
        return d.get(0), d.get(8), d.get(16)

    def push(o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        if 'NaluIndex' not in dem or not isinstance(A[0], I.Ptr):
            return 'nomodel'
        vec = M.get_vec(m, st, A[0])
        n = o.g(st, 'n')
        if vec is None or len(A) != 2 or not st.store.eq(vec.len, n):
            o.undecided.append('%s: pushes to another vector' % F)
            return 'stop'
        x = M.load_ref(m, st, A[1], BP + 'NaluIndex', ins)
        a, b, c = fields(x)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            o.undecided.append('%s: pushes %r' % (F, x))
            return 'stop'
        p = o.advance(m, st)
        q = b.addc(-3)
        if not st.store.eq(q, p):
            d = st.store.const(q.add(p, -1))
            if d is None:
                o.undecided.append('%s: pushes an entry at %r, position %r' % (F, q, p))
            elif d > 0:
                o.bad(m, st, ('missed',), '%s() reports a payload at %r although a start code at %r has not been excluded' % (F, b, p), ins, b)
            else:
                o.bad(m, st, ('wrong',), '%s() reports a payload at %r, which no unreported start code precedes' % (F, b), ins, b)
            return 'stop'
        if o.match(st, p) is not True:
            o.bad(m, st, ('nocode',), '%s() reports a payload at %r without having seen a start code before it' % (F, b), ins, b)
            return 'stop'
        if st.store.rng(p)[1] < 1:
            z = False
        else:
            k = p.addc(-1)
            z = o.isb(st, k, 0)
            if z is None:
                cnd = atom(o.byte('data', k), ((0, 0),))
                raise I.NeedSplit([cnd, c_not(cnd)])
        w = p.addc(-1) if z else p
        if not st.store.eq(a, w):
            o.bad(m, st, ('start',), '%s() reports start_offset %r for the start code %r' % (F, a, w), ins, a)
            return 'stop'
        pv = o.g(st, 'prev')
        if pv is not None and not sized(o, m, st, vec, w.add(pv, -1), ins, ('size',)):
            return 'stop'
        o.setg(st, 'prev', b)
        o.setg(st, 'pos', p.addc(1))
        o.setg(st, 'n', n.addc(1))
        return 'nomodel'

    def sized(o, m, st, vec, want, ins, key):
        if vec.last is None or not st.store.eq(vec.last[0], vec.len.addc(-1)):
            o.undecided.append('%s: last entry unknown' % F)
            return False
        s = fields(vec.last[1])[2]
        if not isinstance(s, Lin):
            o.undecided.append('%s: size %r' % (F, s))
            return False
        if s != want and not st.store.eq(want, s) and not st.store.eq(m.norm(st, want, 64, False), m.norm(st, s, 64, False)):
            if not s.t and s.c == 0 and len(o.heads) > 1:
                o.undecided.append('%s: sizes are filled in elsewhere' % F)
                return False
            o.bad(m, st, key, '%s() gives an entry the size %r, its payload has %r bytes' % (F, s, want), ins, s)
            return False
        return True

    def post(o, m, st, v, ins):
        vec = M.get_vec(m, st, o.ret_slot)
        n = o.g(st, 'n')
        if vec is None or not st.store.eq(vec.len, n):
            o.undecided.append('%s: returns %r' % (F, vec))
            return
        p = o.advance(m, st)
        if st.store.rng(p.add(o.length, -1))[0] < -3:
            o.bad(m, st, ('end',), '%s() returns although a start code at %r (of %r bytes) has not been excluded' % (F, p, o.length), ins)
            return
        pv = o.g(st, 'prev')
        if pv is not None:
            sized(o, m, st, vec, o.length.add(pv, -1), ins, ('lastsize',))
    o = StartCodes(F, post, {'std::vector::push_back': push, 'std::vector::emplace_back': push})
    r, n, data = scan_run(prog, find(prog, BP + F), o)
    r.st.mem[I.SPEC]['n'] = ZERO
    return r.go(data, n)


# ------------------------------------------------------------------ length-prefixed units
def be(o, p, n):
    v = ZERO
    for j in range(n):
        v = v.add(o.byte('data', p.addc(j)), 1 << (8 * (n - 1 - j)))
    return v


def explicit(prog):
    """4-byte big-endian sizes"""
    F = 'FindNaluIndicesExplicitFraming'

    def push(o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        if 'NaluIndex' not in dem or not isinstance(A[0], I.Ptr):
            return 'nomodel'
        vec = M.get_vec(m, st, A[0])
        n = o.g(st, 'n')
        if vec is None or len(A) != 2 or not st.store.eq(vec.len, n):
            o.undecided.append('%s: pushes to another vector' % F)
            return 'stop'
        x = M.load_ref(m, st, A[1], BP + 'NaluIndex', ins)
        d = dict(x[2]) if isinstance(x, tuple) and x[0] == 'struct' else {}
        p = o.g(st, 'pos')
        size = be(o, p, 4)
        for k, nm, w in ((0, 'start_offset', p), (8, 'payload_start_offset', p.addc(4)), (16, 'payload_size', size)):
            g = d.get(k)
            if not isinstance(g, Lin):
                o.undecided.append('%s: pushes %r' % (F, g))
                return 'stop'
            if not st.store.eq(g, w):
                o.bad(m, st, (nm,), '%s() reports %s %r for the unit whose size field is at %r' % (F, nm, g, p), ins, g)
                return 'stop'
        if st.store.rng(o.length.add(p, -1).addc(-4).add(size, -1))[0] < 0:
            o.bad(m, st, ('beyond',), '%s() reports a unit of %r bytes that may end after the buffer' % (F, size), ins)
            return 'stop'
        o.setg(st, 'pos', p.addc(4).add(size))
        o.setg(st, 'n', n.addc(1))
        return 'nomodel'

    def post(o, m, st, v, ins):
        vec = M.get_vec(m, st, o.ret_slot)
        if vec is None or not st.store.eq(vec.len, o.g(st, 'n')):
            o.undecided.append('%s: returns %r' % (F, vec))
            return
        p = o.g(st, 'pos')
        left = o.length.add(p, -1)
        if st.store.rng(left)[1] < 4:
            return
        if st.store.rng(left.addc(-4).add(be(o, p, 4), -1))[1] < 0:
            return
        o.bad(m, st, ('end',), '%s() stops at %r although a whole unit may follow' % (F, p), ins)
    o = Scan(F, post, {'std::vector::push_back': push})
    o.window = ()
    r, n, data = scan_run(prog, find(prog, BP + F), o)
    r.st.mem[I.SPEC]['n'] = ZERO
    return r.go(data, n)


# ------------------------------------------------------------------ whole bitstreams
NALU = 'h264nal::H264NalUnitParser::NalUnitState'
BS = BP + 'BitstreamState'
STATE = 'h264nal::H264BitstreamParserState'


def member(prog, struct, name):
    for o, sz, nm, td in prog.structs.get(struct, []):
        if nm == name:
            return o
    raise Anchor('no member %s in %s' % (name, struct))


class Units(Scan):
    window = ()

    entries = False

    def head(self, m, st, fi, block):
        # between two units every loop is followed as it is
        loc = (tuple((x.fn.name, x.block, x.idx) for x in st.frames), block)
        self.stuck(m, st, loc, fi, block)
        self.advance(m, st)
        p = self.g(st, 'pos')
        k = st.aux.get('_same', 0)
        if any(not v['imprecise'] for v in self.violations):
            return None
        if st.aux.get('_red') == p and k < 12:
            st.aux['_same'] = k + 1
            self.snap(st, loc)
            return st
        new = super().head(m, st, fi, block)
        if new is not None:
            new.aux['_same'] = 0
            new.aux['_red'] = self.g(new, 'pos')
        return new

    def elem_fields(self, m, st, p, n):
        return ((0, 64), (8, 64), (16, 64)) if n == 24 else ()

    def elem_read(self, m, st, v, vp, p, ty, ins):
        if v.items == MARK and ty[0] == 'i':
            return self.byte('indices+%d' % p.off, p.idx, 1 << 40)
        return super().elem_read(m, st, v, vp, p, ty, ins)

    def advance(self, m, st):
        self.settle(m, st, None)

    def settle(self, m, st, ins):
        """what became of the unit parsed last"""
        w = st.aux.get('unit')
        if w is None:
            return
        st.aux['unit'] = None
        F = self.name
        if not w:
            return
        if not st.aux.get('kept'):
            self.bad(m, st, ('lost',), '%s() drops a NAL unit that was parsed' % F, ins)
            return
        for f in ('offset', 'length'):
            g = m.load(st, I.Ptr(('s', 'nalu')).plus(self.off[f]), ('i', 64), ins)
            w = self.g(st, 'want-' + f)
            if not isinstance(g, Lin):
                self.undecided.append('%s of the unit is %r' % (f, g))
            elif not st.store.eq(g, w):
                self.bad(m, st, (f,), '%s() sets the %s of the NAL unit to %r, not %r' % (F, f, g, w), ins, g)


def units(prog, name, sig, kind, stateful, nb=None):
    label = '%s%s%s' % (name, '' if stateful else ' (own state)', '' if nb is None else ' with %d-byte lengths' % nb)

    def expected(o, st):
        """(where the next unit is, its length, position after it, (condition that there is one))"""
        p = o.g(st, 'pos')
        if kind == 'indices':
            return o.byte('indices+8', p, 1 << 40), o.byte('indices+16', p, 1 << 40), p.addc(1), [o.length.add(p, -1).addc(-1)]
        if nb == 0:
            return p, o.length, p.add(o.length), [o.length.add(p, -1).addc(-1)]
        v = be(o, p, nb)
        return p.addc(nb), v, p.addc(nb).add(v), [o.length.add(p, -1).addc(-nb), v.addc(-1), o.length.add(p, -1).addc(-nb).add(v, -1)]

    def indices(o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        if not (isinstance(A[1], I.Ptr) and A[1].obj == data.obj and st.store.eq(A[1].idx.addc(A[1].off), ZERO) and isinstance(A[2], Lin) and st.store.eq(A[2], n)):
            o.bad(m, st, ('split',), '%s() splits %r, %r instead of the buffer it was given' % (name, A[1], A[2]), ins, *A[1:3])
            return 'stop'
        M.set_vec(m, st, A[0], I.Vec(o.length, MARK, None, None))
        return M.done(m, st, ins)

    def parse(o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        if 'unsigned char const*' not in dem or len(A) != 5:
            return 'nomodel'
        o.settle(m, st, ins)
        at, ln, nxt, conds = expected(o, st)
        p = A[1]
        if not isinstance(p, I.Ptr) or p.obj != data.obj or not isinstance(A[2], Lin):
            o.undecided.append('%s: parses %r' % (name, p))
            return 'stop'
        k = p.idx.addc(p.off)
        for c in conds:
            if st.store.rng(c)[0] < 0:
                o.bad(m, st, ('none',), '%s() parses a NAL unit although it is not shown that one is there (%r >= 0)' % (name, c), ins, k)
                return 'stop'
        if not st.store.eq(k, at) or not st.store.eq(A[2], ln):
            o.bad(m, st, ('unit',), '%s() parses %r bytes at %r; the next NAL unit has %r bytes at %r' % (name, A[2], k, ln, at), ins, k, A[2])
            return 'stop'
        if stateful:
            if A[3] != state:
                o.bad(m, st, ('state',), '%s() does not pass on the parser state' % name, ins, A[3])
                return 'stop'
        else:
            if not isinstance(A[3], I.Ptr) or A[3].obj is None:
                o.undecided.append('%s: state %r' % (name, A[3]))
                return 'stop'
            if st.aux.setdefault('state', A[3]) != A[3]:
                o.bad(m, st, ('state',), '%s() uses a different parser state for each unit' % name, ins, A[3])
        if not same_options(A[4]):
            if not isinstance(A[4], I.Blob):
                o.undecided.append('%s: options %r' % (name, A[4]))
            else:
                o.bad(m, st, ('options',), '%s() does not pass on the parsing options' % name, ins)
            return 'stop'
        o.setg(st, 'pos', nxt)
        out = []
        for nul in (True, False):
            s = st.copy()
            s.mem[('s', 'nalu')] = {}
            s.own.add(('s', 'nalu'))
            m.storev(s, A[0], I.NULL if nul else I.Ptr(('s', 'nalu')), ins)
            s.aux['unit'] = not nul
            s.aux['kept'] = False
            o.setg(s, 'want-offset', at)
            o.setg(s, 'want-length', ln)
            s.top.idx += 1
            out.append(s)
        return out

    def same_options(b):
        return isinstance(b, I.Blob) and dict(b.cells) == dict(opts.cells)

    def push(o, m, st, ins, dem, args):
        if 'NalUnitState' not in dem:
            return 'nomodel'
        A = [m.val(st, v, t) for t, v, _ in args]
        vec = M.get_vec(m, st, A[0]) if isinstance(A[0], I.Ptr) else None
        x = m.load(st, A[1], ir.PTR, ins) if len(A) == 2 else None
        if vec is None or not st.store.eq(vec.len, o.g(st, 'n')) or not isinstance(x, I.Ptr):
            o.undecided.append('%s: pushes %r' % (name, x))
            return 'stop'
        if x.obj != ('s', 'nalu') or not st.aux.get('unit') or st.aux.get('kept'):
            o.bad(m, st, ('push',), '%s() adds %r to the result, which is not the unit just parsed' % (name, x), ins)
            return 'stop'
        st.aux['kept'] = True
        o.setg(st, 'n', o.g(st, 'n').addc(1))
        M.set_vec(m, st, A[0], I.Vec(vec.len.addc(1), (), (vec.len, x), vec.sname))
        m.storev(st, A[1], I.NULL, ins)
        return M.done(m, st, ins, M.elems_ptr(m, A[0], vec.len))

    def post(o, m, st, v, ins):
        o.settle(m, st, ins)
        r = m.load(st, o.ret_slot, ir.PTR, ins)
        if not isinstance(r, I.Ptr):
            o.undecided.append('%s: returns %r' % (name, r))
            return
        if r.obj is None:
            o.bad(m, st, ('null',), '%s() returns nothing' % name, ins)
            return
        vec = M.get_vec(m, st, r.plus(o.off['nal_units']))
        if vec is None or not st.store.eq(vec.len, o.g(st, 'n')):
            o.undecided.append('%s: result %r' % (name, vec))
            return
        for k, w in opts.cells:
            g = m.load(st, r.plus(o.off['parsing_options_'] + k), ('i', 8), ins)
            if not isinstance(g, Lin) or not st.store.eq(g, w):
                o.bad(m, st, ('kept-options',), '%s() does not keep the parsing options in its result' % name, ins)
                break
        at, ln, nxt, conds = expected(o, st)
        ss = [st.store]
        for c in conds:
            ss = [y for x in ss for y in x.assume(atom(c, ((0, INF),)), True)]
        if ss and all(x.rng(c)[1] >= 0 for x in ss for c in conds) and (len(conds) < 3 or any(x.rng(conds[0])[1] >= max(1, x.rng(ln)[0]) for x in ss)):
            o.bad(m, st, ('end',), '%s() stops at %r although another NAL unit may follow' % (name, o.g(st, 'pos')), ins)

    o = Units(label, post, {BP + 'FindNaluIndices': indices, 'h264nal::H264NalUnitParser::ParseNalUnit': parse, 'std::vector::push_back': push, 'std::vector::emplace_back': push})
    o.off = {'offset': member(prog, NALU, 'offset'), 'length': member(prog, NALU, 'length'), 'nal_units': member(prog, BS, 'nal_units'), 'parsing_options_': member(prog, BS, 'parsing_options_')}
    r, n, data = scan_run(prog, find(prog, BP + name, sig), o)
    if kind == 'indices':
        o.length = L(sym('indices.size', 0, 1 << 40))
        o.inputs.add(o.length.t[0][0])
    r.st.mem[I.SPEC]['n'] = ZERO
    r.obj('nalu', NALU)
    no = sum(1 for x in prog.structs.get('h264nal::ParsingOptions', []))
    opts = I.Blob((x[0], L(sym('opt%d' % x[0], 0, 1))) for x in prog.structs.get('h264nal::ParsingOptions', []))
    for _, v in opts.cells:
        o.inputs.add(v.t[0][0])
    args = [data, n]
    if nb is not None:
        args.append(Lin(nb))
    if stateful:
        state = r.obj('state', STATE)
        args.append(state)
    return r.go(*(args + [opts]))


def run(prog, tier='quick'):
    c = Checks(prog)
    SIG = 'unsigned long, '
    OPT = 'h264nal::ParsingOptions)'
    c.do('ParseBitstream', lambda: units(prog, 'ParseBitstream', 'H264BitstreamParserState*', 'indices', True))
    c.do('ParseBitstream (own state)', lambda: units(prog, 'ParseBitstream', '(unsigned char const*, unsigned long, ' + OPT, 'indices', False))
    for nb in range(9) if tier != 'quick' else (0, 1, 2, 4, 8):
        c.do('ParseBitstreamNALULength', lambda: units(prog, 'ParseBitstreamNALULength', 'H264BitstreamParserState*', 'lengths', True, nb))
    for nb in (0, 4):
        c.do('ParseBitstreamNALULength (own state)', lambda: units(prog, 'ParseBitstreamNALULength', '(unsigned char const*, unsigned long, unsigned long, ' + OPT, 'lengths', False, nb))
    c.do('FindNaluIndicesExplicitFraming', lambda: explicit(prog))
    c.do('UnescapeRbsp', lambda: unescape(prog))
    c.do('FindNaluIndices', lambda: find_indices(prog))
    return c


if __name__ == '__main__':
    main(run)
