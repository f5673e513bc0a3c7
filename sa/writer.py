"""Contracts of the bit writer and of the non-symmetric code (rtc_common)."""
import re
import interp as I
import models as M
import bitreader as B
from bitreader import BB, MAXLEN, truth, cell
from cli import Unroll
from contract import *
from dom import *

BW = 'h264nal::BitBufferWriter'


class Steps(Unroll):
    MAX_STEPS = 4000


# numbers of values of the non-symmetric code: all small ones, both sides of powers of two, the ends
NS = sorted(set(range(1, 34)) | {2 ** k + d for k in range(6, 31) for d in (-1, 0, 1)} | {3 << 29, (1 << 31) - 1, 1 << 31})


def bitvec(name, n, w=64):
    """n unknown bits"""
    return Lin(0, tuple(sorted((sym('%s.%d' % (name, i), 0, 1).id, 1 << i) for i in range(n))))


class Events:
    """calls of WriteBits() seen through its contract"""
    G = ('c', 'writes')

    def __init__(self, r):
        self.r = r
        r.m.objinfo[self.G] = {'kind': 'cell', 'name': 'writes'}
        r.st.mem[self.G] = {0: ZERO}
        r.st.own.add(self.G)
        for q in ('WriteBits', 'WriteUInt8', 'WriteUInt16', 'WriteUInt32'):
            r.obs.handlers[BW + '::' + q] = lambda o, m, st, ins, dem, args, q=q: self.write(m, st, ins, args, q)

    def ok(self, i):
        return atom(L(sym('write%d succeeds' % i, 0, 1)), ((1, 1),))

    def write(self, m, st, ins, args, q):
        A = [m.val(st, v, t) for t, v, _ in args]
        v = m.int(st, A[1])
        n = m.norm(st, m.int(st, A[2]), 64, False) if q == 'WriteBits' else Lin(int(q[9:]))
        v = m.norm(st, v, 64, False)
        c = st.wcells(self.G)
        i = c[0].c
        c[0] = Lin(i + 1)
        c[16 * i + 8], c[16 * i + 16] = v, n
        out = []
        k = st.store.const(n)
        if k is None:
            raise I.Undecided('%s of %r bits' % (q, n))
        for t in (True, False):
            if t and not 0 < k <= 64:
                continue
            for s in st.store.assume(self.ok(i), t):
                x = st.copy()
                x.store = s
                if ins.res is not None:
                    x.top.regs[ins.res] = t
                x.top.idx += 1
                out.append(x)
        return out

    def seq(self, st):
        c = st.mem[self.G]
        return [(c[16 * i + 8], st.store.const(c[16 * i + 16]), st.store.decide(self.ok(i))) for i in range(c[0].c)]

    def joined(self, st):
        """(value, bits) of the writes that succeeded, one after the other"""
        v, n = ZERO, 0
        for x, k, ok in self.seq(st):
            if ok is not True:
                continue
            v, n = v.scale(1 << k).add(x), n + k
        return v, n


class Writer(Checks):
    def __init__(self, prog):
        super().__init__(prog)
        self.roles = B.Roles(prog)
        ptr = set()

        def post(o, m, st, v, ins):
            for off, x in st.mem[('s', 'this')].items():
                if isinstance(x, I.Ptr) and x.obj == ('r', 'bytes'):
                    ptr.add(off)
        o = Obs('BitBufferWriter', post)
        r = Run(prog, find(prog, BW + '::BitBufferWriter', 'unsigned char*, unsigned long'), o)
        n = L(sym('byte_count', 0, MAXLEN))
        r.go(r.obj('this', BW), r.raw('bytes', n), n)
        self.ptr = ptr

    def reader(self, r, bit):
        return B.Reader(r, self.roles, bit, 'this', lambda R: {o: R.data for o in self.ptr}, BW)

    # ---------------------------------------------------------------- WriteBits and the like
    def write(self, fn, n, bit, vbits=64, passes_n=True):
        label = '%s of %d bits' % (fn, n) if passes_n else fn

        def post(o, m, st, v, ins):
            t = truth(m, st, v)
            cells = {k: x for k, x in st.mem[('r', 'bytes')].items()}
            if not 0 < n <= 64:
                if cells and any(not self.same(m, st, x, self.orig(k)) for k, x in cells.items()):
                    o.fail(m, st, ('bytes', fn), '%s changes the buffer' % label, ins)
                if not R.unmoved(st):
                    o.fail(m, st, ('moved', fn), '%s moves the position' % label, ins)
                if n > 64 and t:
                    o.fail(m, st, ('result', fn), '%s succeeds' % label, ins)
                return
            ok = st.store.decide(atom(R.rem.addc(-n), ((0, INF),)))
            if ok is None or t is None:
                o.undecided.append('%s at bit %d: result %r' % (label, bit, v))
                return
            if t != ok:
                o.fail(m, st, ('result', fn), '%s %s with %s' % (label, 'succeeds' if t else 'fails', 'enough room' if ok else 'too little room'), ins)
                return
            want = {}
            if t:
                for i in range(n):
                    p = bit + i
                    want.setdefault(p // 8, {})[7 - p % 8] = sym('val.%d' % (n - 1 - i), 0, 1).id + 2 if n - 1 - i < vbits else 0
            rest = dict(want)
            for k, x in cells.items():
                d = st.store.const(k.add(R.byte0, -1))
                if d is None:
                    raise I.Undecided('write at %r' % (k,))
                y = self.orig(k, want.get(d, {}))
                g = m.bits(st, m.norm(st, x, 8, False), 8) if isinstance(x, Lin) else None
                if g is None:
                    raise I.Undecided('byte %r' % (x,))
                e = m.same_bits(st, g, y)
                if not e and any(not re.match(r'bit\(raw\(|val\.', Sym.table[u - 2].name) for w in g for u in m.bit_leaves(w)):
                    e = None
                if e is None:
                    raise I.Undecided('byte %r' % (x,))
                if not e:
                    o.fail(m, st, ('bytes', fn), '%s at bit offset %d leaves byte %d as %r' % (label, bit, d, x), ins)
                rest.pop(d, None)
            if rest:
                o.fail(m, st, ('bytes', fn), '%s at bit offset %d does not write byte %d' % (label, bit, min(rest)), ins)
            if not t and not R.unmoved(st):
                o.fail(m, st, ('moved', fn), '%s moves the position although it fails' % label, ins)
            if t and not R.moved(m, st, Lin(n)):
                o.fail(m, st, ('move', fn), '%s at bit offset %d ends at %r' % (label, bit, R.cur(st)), ins)
        o = Obs(label, post)
        r = Run(self.prog, find(self.prog, BW + '::' + fn), o, bitmode=True, machine=Steps)
        R = self.reader(r, bit)
        return r.go(R.obj, bitvec('val', vbits), *([Lin(n)] if passes_n else []))

    def orig(self, k, changed={}):
        y = sym('raw(bytes,%r)' % k, 0, 255)
        return [changed.get(j, derived('bit', (L(y), j), 0, 1).id + 2) for j in range(8)]

    def same(self, m, st, x, want):
        g = m.bits(st, m.norm(st, x, 8, False), 8) if isinstance(x, Lin) else None
        if g is None:
            raise I.Undecided('byte %r' % (x,))
        return m.same_bits(st, g, want)

    def widths(self, tier):
        out = []
        for bit in range(8):
            for n in range(0, 67):
                if tier != 'thorough' and not (n <= 17 or n % 8 in (0, 1, 7) or n >= 63) and bit not in (0, 3, 7):
                    continue
                out.append((n, bit))
        return out

    # ---------------------------------------------------------------- codes
    def code(self, fn, label, args, want, static=False, prep=None):
        """want(m, st): (value, bits) to be written, or None: fails and writes nothing"""
        def post(o, m, st, v, ins):
            t = truth(m, st, v)
            w = want(m, st)
            seq = E.seq(st)
            bad = [x for x in seq if x[2] is not True]
            gv, gn = E.joined(st)
            if w is None:
                if t or gn:
                    o.fail(m, st, ('result', fn), '%s %s' % (label, 'succeeds' if t else 'writes %d bits' % gn), ins)
                return
            if not w[1]:
                if not t or gn:
                    o.fail(m, st, ('result', fn), '%s %s; nothing needs to be written' % (label, 'writes %d bits' % gn if gn else 'fails'), ins)
            elif not t and not bad:
                o.fail(m, st, ('result', fn), '%s fails although every write succeeds' % label, ins)
            elif t and bad:
                o.fail(m, st, ('result', fn), '%s succeeds although a write failed' % label, ins)
            elif t and (gn != w[1] or not self.eqv(m, st, gv, w[0])):
                o.fail(m, st, ('code', fn), '%s writes %r in %d bits; the code is %r in %d bits' % (label, gv, gn, w[0], w[1]), ins)
            elif not t and len(seq) == 1 and (seq[0][1] != w[1] or not self.eqv(m, st, seq[0][0], w[0])) and not (seq[0][1] and seq[0][1] < w[1]):
                o.fail(m, st, ('code', fn), '%s asks for %r in %d bits; the code is %r in %d bits' % (label, seq[0][0], seq[0][1], w[0], w[1]), ins)
        o = Obs(label, post)
        r = Run(self.prog, find(self.prog, BW + '::' + fn), o, machine=Steps)
        E = Events(r)
        R = self.reader(r, None)
        if prep:
            prep(r, o)
        return r.go(R.obj, *args)

    def eqv(self, m, st, a, b):
        return a == b or st.store.eq(a, b) or m.norm(st, a, 64, False) == m.norm(st, b, 64, False)

    def golomb(self):
        out = []
        for k in range(1, 33):
            v = L(sym('golomb value of %d bits' % k, 2 ** (k - 1) - 1, 2 ** k - 2))
            out.append(self.code('WriteExponentialGolomb', 'WriteExponentialGolomb(%r)' % v, [v], lambda m, st, v=v, k=k: (v.addc(1), 2 * k - 1)))
        out.append(self.code('WriteExponentialGolomb', 'WriteExponentialGolomb(UINT32_MAX)', [Lin((1 << 32) - 1)], lambda m, st: None))
        return out

    def signed_golomb(self):
        ok = atom(L(sym('code written', 0, 1)), ((1, 1),))
        ARG = ('c', 'arg')

        def run(v, want):
            def ueg(o, m, st, ins, dem, args):
                a = m.norm(st, m.int(st, m.val(st, args[1][1], args[1][0])), 32, False)
                if 0 in st.mem[ARG]:
                    raise I.Undecided('two codes')
                st.wcells(ARG)[0] = a
                out = []
                for t in (True, False):
                    for s in st.store.assume(ok, t):
                        x = st.copy()
                        x.store = s
                        if ins.res is not None:
                            x.top.regs[ins.res] = t
                        x.top.idx += 1
                        out.append(x)
                return out

            def post(o, m, st, r, ins):
                t = truth(m, st, r)
                a = st.mem[ARG].get(0)
                if want is None:
                    if t:
                        o.fail(m, st, ('result',), 'WriteSignedExponentialGolomb(INT32_MIN) succeeds', ins)
                    return
                if a is None:
                    if E.seq(st):
                        raise I.Undecided('WriteSignedExponentialGolomb: other encoding')
                    o.fail(m, st, ('none',), 'WriteSignedExponentialGolomb(%r) writes nothing' % v, ins)
                    return
                if t != (st.store.decide(ok) is True):
                    o.fail(m, st, ('result',), 'WriteSignedExponentialGolomb(%r) %s although the write %s' % (v, 'succeeds' if t else 'fails', 'failed' if t else 'succeeded'), ins)
                elif not self.eqv(m, st, a, want):
                    o.fail(m, st, ('code',), 'WriteSignedExponentialGolomb(%r) writes code number %r, expected %r' % (v, a, want), ins)
            o = Obs('WriteSignedExponentialGolomb', post, {BW + '::WriteExponentialGolomb': ueg})
            r = Run(self.prog, find(self.prog, BW + '::WriteSignedExponentialGolomb'), o, machine=Steps)
            E = Events(r)
            r.cell('arg')
            R = self.reader(r, None)
            return r.go(R.obj, v)
        pos, neg = L(sym('positive value', 1, (1 << 31) - 1)), L(sym('magnitude of the value', 1, (1 << 31) - 1))
        return [run(ZERO, ZERO), run(pos, pos.scale(2).addc(-1)), run(neg.scale(-1), neg.scale(2)), run(Lin(-(1 << 31)), None)]

    # ---------------------------------------------------------------- non-symmetric code
    def nonsym(self):
        out = []
        for N in NS:
            n = N.bit_length()
            k = (1 << n) - N
            v = L(sym('value below %d' % N, 0, N - 1))

            def want(m, st, v=v, k=k, n=n):
                s = st.store.decide(atom(v, ((0, k - 1),)))
                if s is None:
                    raise I.NeedSplit([atom(v, ((0, k - 1),)), atom(v, ((k, INF),))])
                return (v, n - 1) if s else (v.addc(k), n)
            out.append(self.code('WriteNonSymmetric', 'WriteNonSymmetric(v, %d)' % N, [v, Lin(N)], want))

            def post(o, m, st, r, ins, want=want, N=N):
                w = want(m, st)[1]
                if not st.store.eq(m.int(st, r), Lin(w)):
                    o.fail(m, st, ('size',), 'SizeNonSymmetricBits() is %r for a value of %d that takes %d bits' % (r, N, w), ins)
            o = Obs('SizeNonSymmetricBits', post)
            r = Run(self.prog, find(self.prog, BW + '::SizeNonSymmetricBits'), o, machine=Steps)
            out.append(r.go(v, Lin(N)))
        return out


class Prefix(B.Ghost):
    """the code at the position: n - 1 bits and one more"""

    def __init__(self, r, roles, n):
        super().__init__(r, roles)
        self.n = n
        self.P = L(sym('code prefix of %d bits less one' % n, 0, (1 << (n - 1)) - 1))
        self.X = L(sym('next bit of the code', 0, 1))

    def bits(self, pos, k):
        d = pos.add(self.pos0, -1)
        if d.t or k.t:
            raise I.Undecided('read of %r bits at %r' % (k, d))
        d, k = d.c, k.c
        if (d, k) == (0, self.n - 1):
            return self.P
        if (d, k) == (self.n - 1, 1):
            return self.X
        if (d, k) == (0, self.n):
            return self.P.scale(2).add(self.X)
        raise I.Undecided('read of %d bits at %d' % (k, d))


class NonSym(Checks):
    def __init__(self, prog):
        super().__init__(prog)
        self.roles = B.Roles(prog)

    def read(self, N):
        n = N.bit_length()
        k = (1 << n) - N
        label = 'ReadNonSymmetric(%d)' % N

        def post(o, m, st, v, ins):
            t = truth(m, st, v)
            short = atom(G.P, ((0, k - 1),)) if n > 1 else True
            s = st.store.decide(short) if n > 1 else True
            if s is None:
                raise I.NeedSplit([short, c_not(short)])
            need = n - 1 if s else n
            room = atom(G.rem.addc(-need), ((0, INF),))
            ok = st.store.decide(room)
            if ok is None:
                raise I.NeedSplit([room, c_not(room)])
            if t != ok:
                o.fail(m, st, ('result',), '%s %s although %s bits of its code are left' % (label, 'succeeds' if t else 'fails', 'too few' if t else 'all'), ins)
                return
            if not t:
                if not G.at(st, G.pos0):
                    o.fail(m, st, ('moved',), '%s moves the position although it fails' % label, ins)
                return
            want = (G.P if n > 1 else ZERO) if s else G.P.scale(2).add(G.X).addc(-k)
            got = cell(st, 'val')
            if not isinstance(got, Lin) or any(I.SOFT.match(Sym.table[i].name) for i in bases_of(got)):
                raise I.Undecided('%s gives %r' % (label, got))
            if not (st.store.eq(got, want) or st.store.eq(m.norm(st, got, 32, False), want)):
                o.fail(m, st, ('value',), '%s gives %r for the code of %r' % (label, got, want), ins)
            if not G.at(st, G.pos0.addc(need)):
                o.fail(m, st, ('move',), '%s ends at %r instead of %d bits further' % (label, G.g(st, B.POS), need), ins)
        o = Obs(label, post)
        r = Run(self.prog, find(self.prog, BB + '::ReadNonSymmetric', '(unsigned int, unsigned int&)'), o, machine=Steps)
        G = Prefix(r, self.roles, n)
        return r.go(G.obj, Lin(N), r.cell('val', L(sym('old', 0, (1 << 32) - 1))))


def run(prog, tier='quick'):
    try:
        c = Writer(prog)
    except Anchor as e:
        c = Checks(prog)
        c.missing.append(str(e))
        return c
    top = 99
    for n, bit in c.widths(tier):
        if n <= top or n > 64:
            k = len(c.undecided)
            c.do('WriteBits', lambda: c.write('WriteBits', n, bit))
            if any('budget' in u for u in c.undecided[k:]):
                top = n - 1         # paths multiply with the width
    for f, w in (('WriteUInt8', 8), ('WriteUInt16', 16), ('WriteUInt32', 32)):
        c.do(f, lambda: [c.write(f, w, b, w, False) for b in range(8)])
    c.do('WriteExponentialGolomb', c.golomb)
    c.do('WriteSignedExponentialGolomb', c.signed_golomb)
    c.do('WriteNonSymmetric', c.nonsym)
    d = NonSym(prog)
    for N in NS:
        d.do('ReadNonSymmetric', lambda: d.read(N))
    c.runs += d.runs
    c.undecided += d.undecided
    c.missing += d.missing
    return c


if __name__ == '__main__':
    main(run)
