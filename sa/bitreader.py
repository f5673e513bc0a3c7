"""Contracts of the bit reader and writer (rtc_common)."""
import re
import interp as I
import models as M
import spec
from contract import *
from dom import *

BB = 'h264nal::BitBuffer'
MAXLEN = (1 << 32) - 1


class Roles:
    """which member of BitBuffer plays which part: found from the constructor
    and from GetCurrentOffset(), not from the member names"""

    def __init__(self, prog):
        self.prog = prog
        res = {}

        def post(o, m, st, v, ins):
            c = st.mem[('s', 'this')]
            for off, x in c.items():
                if isinstance(x, I.Ptr) and x.obj == ('r', 'bytes'):
                    res['bytes'] = off
                elif isinstance(x, Lin) and repr(x) == 'byte_count':
                    res['count'] = off
                elif x == ZERO:
                    res.setdefault('zero', set()).add(off)
        o = Obs('ctor', post)
        fn = find(prog, BB + '::BitBuffer', 'unsigned char const*, unsigned long')
        r = Run(prog, fn, o)
        n = L(sym('byte_count', 0, MAXLEN))
        r.go(r.obj('this', BB), r.raw('bytes', n), n)
        self.ctor_violations = o.violations

        def post2(o, m, st, v, ins):
            a, b = st.mem[('c', 'a')].get(0), st.mem[('c', 'b')].get(0)
            for off, x in st.mem[('s', 'this')].items():
                if x == a:
                    res['byte'] = off
                elif x == b:
                    res['bit'] = off
        o = Obs('offset', post2)
        r = Run(prog, find(prog, BB + '::GetCurrentOffset'), o)
        r.go(r.obj('this', BB), r.cell('a'), r.cell('b'))
        self.goff_violations = o.violations
        for k in ('bytes', 'count', 'byte', 'bit'):
            if k not in res:
                raise Anchor('BitBuffer member for %s not found' % k)
        self.__dict__.update(res)
        self.ctor_ok = {self.byte, self.bit} <= res.get('zero', set())


class Reader:
    """a BitBuffer object at an arbitrary valid position"""

    def __init__(self, r, roles, bit=None, name='this', extra=None, struct=BB):
        self.roles = roles
        self.bit0 = Lin(bit) if bit is not None else L(sym('bit', 0, 7))
        self.byte0 = L(sym('byte', 0, MAXLEN))
        self.avail = L(sym('avail', 0, MAXLEN))
        self.count = self.byte0.add(self.avail)
        self.rem = self.avail.scale(8).add(self.bit0, -1)       # bits left
        self.pos0 = self.byte0.scale(8).add(self.bit0)
        r.assume(atom(self.rem, ((0, INF),)))
        r.assume(atom(self.count, ((0, MAXLEN),)))
        self.data = r.raw('bytes', self.count)
        f = {roles.bytes: self.data, roles.count: self.count, roles.byte: self.byte0, roles.bit: self.bit0}
        f.update(extra(self) if extra else {})
        self.obj = r.obj(name, struct, f)

    def cur(self, st):
        c = st.mem[self.obj.obj]
        return c[self.roles.byte], c[self.roles.bit]

    def unmoved(self, st):
        a, b = self.cur(st)
        return st.store.eq(a, self.byte0) and st.store.eq(b, self.bit0)

    def moved(self, m, st, n):
        """position is pos0 + n with a normalised bit offset"""
        a, b = self.cur(st)
        t = self.bit0.add(n)
        if st.store.rng(t)[0] < 0:
            return False
        return st.store.eq(a, self.byte0.add(m.div(st, t, 8))) and st.store.eq(b, m.rem(st, t, 8))

    def value(self, n):
        """the n bits at the position, most significant first (bit0 constant)"""
        k = self.bit0.c
        t = []
        for i in range(n):
            byte, bit = (k + i) // 8, 7 - (k + i) % 8
            y = sym('raw(bytes,%r)' % self.byte0.addc(byte), 0, 255)
            t.append((derived('bit', (L(y), bit), 0, 1).id, 1 << (n - 1 - i)))
        return Lin(0, tuple(sorted(t)))


def truth(m, st, v):
    """True/False; undecided values split the return"""
    c = m.as_cond(st, v)
    t = st.store.decide(c)
    if t is None:
        raise I.NeedSplit([c, c_not(c)])
    return t


def cell(st, n):
    return st.mem[('c', n)].get(0)


def legal(st, c):
    return st.store.decide(c)


class Steps(I.Machine):
    MAX_STEPS = 2000


class Check0(Checks):
    def __init__(self, prog):
        super().__init__(prog)
        self.roles = Roles(prog)

    # ---------------------------------------------------------------- simple ones
    def remaining(self):
        def post(o, m, st, v, ins):
            if not st.store.eq(m.int(st, v), R.rem):
                o.fail(m, st, ('value',), 'RemainingBitCount() returns %r, %r bits are left' % (v, R.rem), ins)
            if not R.unmoved(st):
                o.fail(m, st, ('moved',), 'RemainingBitCount() moves the position', ins)
        o = Obs('RemainingBitCount', post)
        r = Run(self.prog, find(self.prog, BB + '::RemainingBitCount'), o)
        R = Reader(r, self.roles)
        return r.go(R.obj)

    def consume(self, fn, scale):
        def post(o, m, st, v, ins):
            t = truth(m, st, v)
            ok = st.store.decide(atom(R.rem.add(n, -scale), ((0, INF),)))
            if t is None:
                o.undecided.append('%s: result %r' % (fn, v))
                return
            if t:
                if ok is not True:
                    o.fail(m, st, ('over',), '%s() succeeds although %r bits may not be left' % (fn, n.scale(scale)), ins)
                elif not R.moved(m, st, n.scale(scale)):
                    o.fail(m, st, ('move',), '%s() moves to %r instead of %r bits further' % (fn, R.cur(st), n.scale(scale)), ins)
            else:
                if ok is not False:
                    o.fail(m, st, ('reject',), '%s() fails although enough bits are left' % fn, ins)
                if not R.unmoved(st):
                    o.fail(m, st, ('moved',), '%s() moves the position although it fails' % fn, ins)
        o = Obs(fn, post)
        r = Run(self.prog, find(self.prog, BB + '::' + fn), o)
        R = Reader(r, self.roles)
        n = L(sym('n', 0, (1 << 64) - 1))
        return r.go(R.obj, n)

    def seek(self):
        def post(o, m, st, v, ins):
            t = truth(m, st, v)
            ok = st.store.decide(c_and(atom(k, ((0, 7),)), atom(R.count.scale(8).add(b, -8).add(k, -1), ((0, INF),))))
            if t is None or (ok is None and t):
                o.undecided.append('Seek: result %r' % (v,)) if t is None else o.fail(m, st, ('over',), 'Seek() accepts a position that may be outside the buffer', ins)
                return
            if t:
                if not ok:
                    o.fail(m, st, ('over',), 'Seek() accepts a position outside the buffer', ins)
                a, c = R.cur(st)
                if not (st.store.eq(a, b) and st.store.eq(c, k)):
                    o.fail(m, st, ('move',), 'Seek() ends at %r/%r' % (a, c), ins)
            else:
                if ok is not False:
                    o.fail(m, st, ('reject',), 'Seek() rejects a position inside the buffer', ins)
                if not R.unmoved(st):
                    o.fail(m, st, ('moved',), 'Seek() moves the position although it fails', ins)
        o = Obs('Seek', post)
        r = Run(self.prog, find(self.prog, BB + '::Seek'), o)
        R = Reader(r, self.roles)
        b, k = L(sym('to_byte', 0, (1 << 64) - 1)), L(sym('to_bit', 0, (1 << 64) - 1))
        return r.go(R.obj, b, k)

    def offset(self):
        def post(o, m, st, v, ins):
            if not (cell(st, 'a') == R.byte0 and cell(st, 'b') == R.bit0 and R.unmoved(st)):
                o.fail(m, st, ('value',), 'GetCurrentOffset() reports %r/%r' % (cell(st, 'a'), cell(st, 'b')), ins)
        o = Obs('GetCurrentOffset', post)
        r = Run(self.prog, find(self.prog, BB + '::GetCurrentOffset'), o)
        R = Reader(r, self.roles)
        return r.go(R.obj, r.cell('a'), r.cell('b'))

    # ---------------------------------------------------------------- values, per (bit offset, width)
    def read(self, fn, sig, width, n, bit, passes_n=True, moves=True, fixed=None):
        label = '%s(%s)' % (fn, sig)
        old = L(sym('old%d' % width, 0, (1 << width) - 1))

        def post(o, m, st, v, ins):
            t = truth(m, st, v)
            cnt = n if fixed is None else fixed
            ok = 0 < cnt <= width and st.store.decide(atom(R.rem.addc(-cnt), ((0, INF),)))
            if ok is None or t is None:
                o.undecided.append('%s of %d bits at bit %d: result %r' % (label, cnt, bit, v))
                return
            if t != ok:
                o.fail(m, st, ('result', fn), '%s %s for %d bits with %s left' % (label, 'succeeds' if t else 'fails', cnt, 'enough bits' if ok else 'too few bits or an unsupported width'), ins)
                return
            if not t:
                if not R.unmoved(st):
                    o.fail(m, st, ('moved', fn), '%s moves the position although it fails' % label, ins)
                return
            got = cell(st, 'val')
            want = R.value(cnt)
            g = m.bits(st, got, 64) if isinstance(got, Lin) else None
            # bits that are not traced back to the buffer: no verdict
            if isinstance(got, Lin) and got != old and (g is None or any(not re.match(r'bit\(raw\(|old', Sym.table[u - 2].name) for w in g for u in m.bit_leaves(w))):
                raise I.Undecided('%s of %d bits at bit %d: value %r' % (label, cnt, bit, got))
            if g is None or not m.same_bits(st, g, m.bits(st, want, 64)):
                o.fail(m, st, ('value', fn), '%s of %d bits at bit offset %d gives %r instead of the next bits, most significant first' % (label, cnt, bit, got), ins)
            if moves and not R.moved(m, st, Lin(cnt)):
                o.fail(m, st, ('move', fn), '%s of %d bits ends at %r' % (label, cnt, R.cur(st)), ins)
            if not moves and not R.unmoved(st):
                o.fail(m, st, ('moved', fn), '%s moves the position' % label, ins)
        o = Obs(label, post)
        r = Run(self.prog, find(self.prog, BB + '::' + fn, sig), o, bitmode=True, machine=Steps)
        R = Reader(r, self.roles, bit)
        a = [R.obj] + ([Lin(n)] if passes_n else []) + [r.cell('val', old)]
        return r.go(*a)

    def read_all(self, label, fn, sig, width, tier, moves):
        out, top = [], width
        for bit in range(8):
            for n in range(0, width + 2):
                if tier != 'thorough' and not (n <= 17 or n % 8 in (0, 1, 7) or n >= width - 1) and bit not in (0, 3, 7):
                    continue
                if top < n <= width:
                    continue
                k = len(self.undecided)
                self.do(label, lambda: self.read(fn, sig, width, n, bit, True, moves))
                if any('budget' in u for u in self.undecided[k:]):
                    top = min(top, n - 1)   # paths multiply with the width
        return out

# ---------------------------------------------------------------- the reader as a ghost position
GH = ('c', 'ghost')
POS, ZR, AZ, RDP, RDK, NRD = 0, 8, 16, 24, 32, 40


class Ghost:
    """a BitBuffer seen through its contract: one position (in bits) in a ghost
    cell; the handlers below stand for the methods checked on their own"""

    def __init__(self, r, roles, bit=None, name='this', byte=None):
        self.roles = roles
        self.m = r.m
        self.bit0 = Lin(bit) if bit is not None else L(sym('bit', 0, 7))
        self.byte0 = byte if byte is not None else L(sym('byte', 0, MAXLEN))
        self.rem = L(sym('rem', 0, 8 * MAXLEN))
        self.pos0 = self.byte0.scale(8).add(self.bit0)
        self.end = self.pos0.add(self.rem)
        self.saved = {}
        r.m.objinfo[GH] = {'kind': 'cell', 'name': 'ghost'}
        r.st.mem[GH] = {POS: self.pos0, ZR: self.pos0, AZ: Lin(1), RDP: Lin(-1), RDK: Lin(-1), NRD: Lin(0)}
        r.st.own.add(GH)
        f = {}
        if roles is not None:
            f = {roles.byte: self.byte0, roles.bit: self.bit0}
        self.obj = r.obj(name, BB, f)
        h = r.obs.handlers
        for q, fn in (('PeekBits', self.peek), ('ReadBits', self.read), ('ConsumeBits', self.consume), ('Seek', self.seek),
                      ('RemainingBitCount', self.remaining), ('GetCurrentOffset', self.offset), ('ConsumeBytes', self.consumeb),
                      ('ReadUInt8', self.u8), ('ReadUInt16', self.u16), ('ReadUInt32', self.u32)):
            h.setdefault(BB + '::' + q, fn)
        fl = r.fn.name
        q = M.strip_templates(r.prog.dem(fl))
        h.pop(q, None)

    def g(self, st, k):
        return st.mem[GH][k]

    def put(self, st, **kw):
        c = st.wcells(GH)
        for k, v in kw.items():
            c[globals()[k]] = v

    def moved(self, st, pos):
        self.put(st, POS=pos)
        if self.roles is not None:
            c = st.wcells(self.obj.obj)
            if pos == self.pos0:
                c[self.roles.byte], c[self.roles.bit] = self.byte0, self.bit0
            else:
                c[self.roles.byte] = c[self.roles.bit] = I.Unk('stale offset')

    def bits(self, pos, n):
        hi = (1 << n.c) - 1 if n.is_const() else (1 << 64) - 1
        return L(sym('bits(%r,%r)' % (pos, n), 0, hi))

    def enough(self, st, n):
        """(stores where n bits are left and n is a supported width, stores where not)"""
        return atom(self.end.add(self.g(st, POS), -1).add(n, -1), ((0, INF),))

    def fork(self, st, ins, c, yes, no=None, w=None):
        out = []
        for truth, f in ((True, yes), (False, no)):
            for s in st.store.assume(c, truth):
                n = st.copy()
                n.store = s
                v = truth
                if f is not None:
                    f(n)
                if ins.res is not None:
                    n.top.regs[ins.res] = v
                n.top.idx += 1
                out.append(n)
        return out

    def peek(self, o, m, st, ins, dem, args, consume=False, fixed=None):
        A = [m.val(st, v, t) for t, v, _ in args]
        n = Lin(fixed) if fixed else m.norm(st, m.int(st, A[1]), 64, False)
        w = 64 if 'unsigned long&' in dem else 32
        k = st.store.const(n)
        if k is not None:
            n = Lin(k)
        pos = self.g(st, POS)
        c = c_and(atom(n, ((1, w),)), self.enough(st, n))

        def yes(s):
            v = self.bits(pos, n)
            if not n.is_const():
                hi = (1 << min(s.store.rng(n)[1], w)) - 1
                s.store = s.store.assume(atom(v, ((0, hi),)), True)[0]
            m.storev(s, A[-1], v, ins)
            if consume:
                self.zeros(s, pos, n)
                self.put(s, RDP=pos, RDK=n, NRD=self.g(s, NRD).addc(1))
                self.moved(s, pos.add(n))
        return self.fork(st, ins, c, yes)

    def zeros(self, st, pos, n):
        """the skipped bits are known to be zero"""
        if n == Lin(1) and self.g(st, AZ) == Lin(1) and st.store.decide(atom(self.bits(pos, n), ((0, 0),))) is True:
            self.put(st, ZR=pos.add(n))
        else:
            self.put(st, AZ=Lin(0))

    def read(self, o, m, st, ins, dem, args):
        return self.peek(o, m, st, ins, dem, args, True)

    def u8(self, o, m, st, ins, dem, args):
        return self.peek(o, m, st, ins, dem, args, True, 8)

    def u16(self, o, m, st, ins, dem, args):
        return self.peek(o, m, st, ins, dem, args, True, 16)

    def u32(self, o, m, st, ins, dem, args):
        return self.peek(o, m, st, ins, dem, args, True, 32)

    def consume(self, o, m, st, ins, dem, args, k=1):
        A = [m.val(st, v, t) for t, v, _ in args]
        n = m.norm(st, m.int(st, A[1]), 64, False).scale(k)
        pos = self.g(st, POS)

        def yes(s):
            self.zeros(s, pos, n)
            self.moved(s, pos.add(n))
        return self.fork(st, ins, self.enough(st, n), yes)

    def consumeb(self, o, m, st, ins, dem, args):
        return self.consume(o, m, st, ins, dem, args, 8)

    def remaining(self, o, m, st, ins, dem, args):
        return M.done(m, st, ins, self.end.add(self.g(st, POS), -1))

    def offset(self, o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        p = self.g(st, POS)
        b, k = m.div(st, p, 8), m.rem(st, p, 8)
        self.saved[(b, k)] = p
        m.storev(st, A[1], b, ins)
        m.storev(st, A[2], k, ins)
        return M.done(m, st, ins)

    def seek(self, o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        if any(isinstance(x, I.Unk) for x in A[1:]):
            raise I.Undecided('Seek to an unknown position')
        b, k = m.int(st, A[1]), m.int(st, A[2])
        p = self.saved.get((b, k))
        known = p is not None
        if p is None:
            p = b.scale(8).add(k)
        c = c_and(atom(k, ((0, 7),)), atom(self.end.add(p, -1), ((0, INF),)))
        if known or p == self.pos0:
            c = True

        def yes(s):
            self.moved(s, p)
        if c is True:
            yes(st)
            if ins.res is not None:
                st.top.regs[ins.res] = True
            return None
        return self.fork(st, ins, c, yes)

    def at(self, st, pos):
        return st.store.eq(self.g(st, POS), pos)


class Ghosted:
    """contracts decided on the ghost reader"""

    def golomb(self):
        def post(o, m, st, v, ins):
            t = truth(m, st, v)
            if t is None:
                o.undecided.append('ReadExponentialGolomb: result %r' % (v,))
                return
            p0 = G.pos0
            if not t:
                if not G.at(st, p0):
                    o.fail(m, st, ('restore',), 'ReadExponentialGolomb() fails without restoring the position (at %r)' % G.g(st, POS), ins, 0)
                z = G.g(st, ZR)
                zc = z.add(p0, -1)
                if G.g(st, AZ) != Lin(1) and G.g(st, NRD) != Lin(0):
                    o.undecided.append('ReadExponentialGolomb: other decoding')
                    return
                too_long = st.store.decide(atom(zc, ((32, INF),)))
                short = st.store.decide(atom(G.end.add(z, -1).add(zc, -1).addc(-1), ((NINF, -1),)))
                if too_long is not True and short is not True:
                    o.fail(m, st, ('reject',), 'ReadExponentialGolomb() fails on a complete code of %r leading zeros' % zc, ins, 0)
                return
            if not st.store.eq(G.g(st, NRD), Lin(1)):
                o.undecided.append('ReadExponentialGolomb: other decoding')
                return
            p, k = G.g(st, RDP), G.g(st, RDK)
            z = G.g(st, ZR)
            if not (st.store.eq(p, z) and st.store.eq(p.add(p0, -1), k.addc(-1))):
                o.fail(m, st, ('length',), 'ReadExponentialGolomb() reads %r value bits after %r leading zeros' % (k, p.add(p0, -1)), ins, 0)
            first = st.store.decide(atom(G.bits(p, Lin(1)), ((1, 1),)))
            if first is not True:
                o.fail(m, st, ('first',), 'ReadExponentialGolomb() takes a value that does not start with a one bit', ins, 0)
            if not G.at(st, p.add(k)):
                o.fail(m, st, ('move',), 'ReadExponentialGolomb() ends at %r' % G.g(st, POS), ins, 0)
            got = cell(st, 'val')
            want = G.bits(p, k).addc(-1)
            if not (isinstance(got, Lin) and (got == want or m.norm(st, got, 32, False) == m.norm(st, want, 32, False))):
                o.fail(m, st, ('value',), 'ReadExponentialGolomb() gives %r for the code value %r' % (got, want), ins, 0)
        o = Obs('ReadExponentialGolomb', post)
        r = Run(self.prog, find(self.prog, BB + '::ReadExponentialGolomb'), o)
        G = Ghost(r, self.roles)
        return r.go(G.obj, r.cell('val', L(sym('old', 0, (1 << 32) - 1))))

    def signed_golomb(self):
        h, b = L(sym('half', 0, (1 << 31) - 1)), L(sym('low', 0, 1))
        u = h.scale(2).add(b)

        def ueg(o, m, st, ins, dem, args):
            A = [m.val(st, v, t) for t, v, _ in args]

            def yes(s):
                m.storev(s, A[-1], u, ins)
                s.store = s.store.assume(atom(u, ((0, (1 << 32) - 2),)), True)[0]
            return G.fork(st, ins, atom(L(sym('uok', 0, 1)), ((1, 1),)), yes)

        def post(o, m, st, v, ins):
            t = truth(m, st, v)
            ok = st.store.decide(atom(L(sym('uok', 0, 1)), ((1, 1),)))
            if t is None or ok is None:
                o.undecided.append('ReadSignedExponentialGolomb: result %r' % (v,))
                return
            if t != ok:
                o.fail(m, st, ('result',), 'ReadSignedExponentialGolomb() %s although the unsigned code %s' % ('succeeds' if t else 'fails', 'is complete' if ok else 'is not'), ins)
                return
            if not t:
                return
            low = st.store.const(b)
            if low is None:
                raise I.NeedSplit([atom(b, ((0, 0),)), atom(b, ((1, 1),))])
            want = h.scale(-1) if low == 0 else h.addc(1)
            got = cell(st, 'val')
            if not (isinstance(got, Lin) and (st.store.eq(got, want) or m.norm(st, got, 32, True) == want or st.store.eq(m.norm(st, got, 32, True), want))):
                o.fail(m, st, ('value',), 'ReadSignedExponentialGolomb() gives %r for code number %r, expected %r' % (got, u, want), ins)
        o = Obs('ReadSignedExponentialGolomb', post, {BB + '::ReadExponentialGolomb': ueg})
        r = Run(self.prog, find(self.prog, BB + '::ReadSignedExponentialGolomb'), o)
        G = Ghost(r, self.roles)
        return r.go(G.obj, r.cell('val', L(sym('old signed', -(1 << 31), (1 << 31) - 1))))

    def aligned(self):
        out = []
        for bit in range(8):
            def post(o, m, st, v, ins, bit=bit):
                if truth(m, st, v) is not (bit == 0) or not G.at(st, G.pos0):
                    o.fail(m, st, ('value',), 'byte_aligned() gives %r at bit offset %d' % (v, bit), ins)

            def post2(o, m, st, v, ins, bit=bit):
                if not st.store.eq(m.int(st, v), G.byte0.addc(1 if bit else 0)) or not G.at(st, G.pos0):
                    o.fail(m, st, ('value',), 'get_current_offset() gives %r at bit offset %d of byte %r' % (v, bit, G.byte0), ins)

            def post3(o, m, st, v, ins, bit=bit):
                t = truth(m, st, v)
                n = 8 - bit
                one = st.store.decide(c_and(atom(G.rem, ((n, INF),)), atom(G.bits(G.pos0, Lin(1)), ((1, 1),))))
                zs = [st.store.decide(atom(G.bits(G.pos0.addc(i), Lin(1)), ((0, 0),))) for i in range(1, n)]
                if t is None:
                    o.undecided.append('rbsp_trailing_bits: %r' % (v,))
                elif t:
                    if one is not True or not all(z is True for z in zs):
                        o.fail(m, st, ('accept',), 'rbsp_trailing_bits() accepts bits that are not a one followed by zeros up to the byte boundary', ins)
                    if not G.at(st, G.pos0.addc(n)):
                        o.fail(m, st, ('move',), 'rbsp_trailing_bits() ends at %r' % G.g(st, POS), ins)
                elif not (one is False or any(z is False for z in zs) or st.store.decide(atom(G.rem, ((0, n - 1),))) is True):
                    o.fail(m, st, ('reject',), 'rbsp_trailing_bits() rejects valid trailing bits', ins)

            for fn, p in (('byte_aligned', post), ('get_current_offset', post2), ('rbsp_trailing_bits', post3)):
                o = Obs(fn, p)
                o.unroll = True
                r = Run(self.prog, find(self.prog, 'h264nal::' + fn), o)
                G = Ghost(r, self.roles, bit)
                # the buffer ends at a byte boundary
                r.assume(atom(G.rem, ((1, INF),))) if bit else None
                out.append(r.go(G.obj))
        return out

    def more_data(self):
        """for an RBSP whose remaining bits hold a one: true iff something precedes the trailing bits"""
        out = []
        for n in list(range(0, 9)) + [None]:
            def post(o, m, st, v, ins, n=n):
                t = truth(m, st, v)
                if not G.at(st, G.pos0):
                    o.fail(m, st, ('moved',), 'more_rbsp_data() moves the position', ins)
                if t is None:
                    o.undecided.append('more_rbsp_data: %r' % (v,))
                    return
                if n is None:
                    if not t:
                        o.fail(m, st, ('long',), 'more_rbsp_data() is false with more than one byte left', ins)
                    return
                if n == 0:
                    if t:
                        o.fail(m, st, ('end',), 'more_rbsp_data() is true at the end of the data', ins)
                    return
                x = G.bits(G.pos0, Lin(n))
                tr = st.store.decide(atom(x, ((1 << (n - 1), 1 << (n - 1)),)))
                if st.store.decide(atom(x, ((0, 0),))) is True:
                    return
                if tr is None or tr == t:
                    o.fail(m, st, ('bits', n), 'more_rbsp_data() is %s with %d bits left that %s the trailing bits' % (t, n, 'are' if tr else 'may not be' if tr is None else 'are not'), ins)
            o = Obs('more_rbsp_data', post)
            r = Run(self.prog, find(self.prog, 'h264nal::more_rbsp_data'), o)
            G = Ghost(r, self.roles)
            r.assume(atom(G.rem, ((n, n),)) if n is not None else atom(G.rem, ((9, INF),)))
            out.append(r.go(G.obj))
        return out

    def checksum(self):
        def post(o, m, st, v, ins):
            if not G.at(st, G.pos0):
                o.fail(m, st, ('restore',), 'GetNaluChecksum() leaves the position at %r' % G.g(st, POS), ins, 0)
        out = []
        for bit in range(8):
            o = Obs('GetNaluChecksum', post)
            r = Run(self.prog, find(self.prog, 'h264nal::NaluChecksum::GetNaluChecksum'), o)
            G = Ghost(r, self.roles, bit)
            out.append(r.go(G.obj))
        return out


class Check(Ghosted, Check0):
    pass



def run(prog, tier='quick'):
    c = Check(prog)
    c.do('RemainingBitCount', c.remaining)
    c.do('ConsumeBits', lambda: c.consume('ConsumeBits', 1))
    c.do('ConsumeBytes', lambda: c.consume('ConsumeBytes', 8))
    c.do('Seek', c.seek)
    c.do('GetCurrentOffset', c.offset)
    c.do('PeekBits/32', lambda: c.read_all('PeekBits/32', 'PeekBits', '(unsigned long, unsigned int&)', 32, tier, False))
    c.do('PeekBits/64', lambda: c.read_all('PeekBits/64', 'PeekBits', '(unsigned long, unsigned long&)', 64, tier, False))
    c.do('ReadBits/32', lambda: c.read_all('ReadBits/32', 'ReadBits', '(unsigned long, unsigned int&)', 32, tier, True))
    c.do('ReadBits/64', lambda: c.read_all('ReadBits/64', 'ReadBits', '(unsigned long, unsigned long&)', 64, tier, True))
    for f, s, w in (('ReadUInt8', '(unsigned char&)', 8), ('ReadUInt16', '(unsigned short&)', 16), ('ReadUInt32', '(unsigned int&)', 32)):
        c.do(f, lambda: [c.read(f, s, w, 0, b, False, True, w) for b in range(8)])
    c.do('ReadExponentialGolomb', c.golomb)
    c.do('ReadSignedExponentialGolomb', c.signed_golomb)
    c.do('alignment helpers', c.aligned)
    c.do('more_rbsp_data', c.more_data)
    c.do('checksum', c.checksum)
    return c


if __name__ == '__main__':
    main(run)
