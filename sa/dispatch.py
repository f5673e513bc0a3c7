"""Contracts around the payload dispatch: lookups in the parser state, whether a
payload was parsed, peeking at the type of a NAL unit."""
import interp as I
import models as M
import spec
import specs
from contract import *
from dom import *

N = 'h264nal::'
STATE = N + 'H264BitstreamParserState'
PAY = N + 'H264NalUnitPayloadParser::NalUnitPayloadState'
HDR = N + 'H264NalUnitHeaderParser::NalUnitHeaderState'
PAYLOAD = {1: 'slice_layer_without_partitioning_rbsp', 5: 'slice_layer_without_partitioning_rbsp', 7: 'sps', 8: 'pps', 14: 'prefix_nal_unit',
           15: 'subset_sps', 20: 'slice_layer_extension_rbsp'}


def member(prog, struct, name):
    for o, sz, nm, td in prog.structs.get(struct, []):
        if nm == name:
            return o, sz, td
    raise Anchor('no member %s in %s' % (name, struct))


class Dispatch(Checks):
    def getter(self, fn, field):
        """%s(id) returns what the map holds under id, else null, and leaves the map alone"""
        def post(o, m, st, v, ins):
            v = m.load(st, o.ret_slot, ir.PTR, ins)
            f = atom(L(sym('found(%s,%r)' % (mn, k), 0, 1)), ((1, 1),))
            d = st.store.decide(f)
            if d is None:
                raise I.NeedSplit([f, c_not(f)])
            want = ('s', '%s[%r]' % (mn, k)) if d else None
            if not isinstance(v, I.Ptr):
                o.undecided.append('%s: result %r' % (fn, v))
            elif v.obj != want:
                o.fail(m, st, ('value',), '%s() returns %r where the %s map holds %s' % (fn, v, field, want or 'nothing'), ins)
        muts = []

        class O(Obs):
            def map_index(self, m, st, ins, mn, k, meth, dem):
                f = atom(L(sym('found(%s,%r)' % (mn, k), 0, 1)), ((1, 1),))
                if st.store.decide(f) is not True:
                    self.fail(m, st, ('insert', mn), '%s() adds an entry to %s or throws for an unknown identifier' % (fn, mn), ins)

            def map_mutate(self, m, st, ins, mn, meth, A, dem):
                self.fail(m, st, ('mutate', mn), '%s() modifies %s' % (fn, mn), ins)
        o = O(fn, post)
        r = Run(self.prog, find(self.prog, STATE + '::' + fn), o)
        off, sz, td = member(self.prog, STATE, field)
        this = r.obj('this', STATE)
        mn = M.map_name(r.m, this.plus(off))
        k = L(sym('id', 0, (1 << 32) - 1))
        return r.go(this, k)

    def parsed(self):
        """IsPayloadParsed(type): the structure of that type is present"""
        out = []
        fields = sorted(set(PAYLOAD.values()))
        for t in list(range(32)) + ['more']:
            def post(o, m, st, v, ins, t=t):
                c = m.as_cond(st, v)
                want = True
                if t in PAYLOAD:
                    want = atom(Lin(0, ((nn[PAYLOAD[t]], 1),)), ((1, 1),))
                d = st.store.decide(want) if want is not True else True
                if d is None:
                    raise I.NeedSplit([want, c_not(want)])
                g = st.store.decide(c)
                if g is None:
                    o.fail(m, st, (t,), 'IsPayloadParsed(%s) depends on %r' % (t, c), ins)
                elif g is not d:
                    o.fail(m, st, (t,), 'IsPayloadParsed(%s) is %s when %s' % (t, g, ('the payload is %s' % ('present' if d else 'missing')) if t in PAYLOAD else 'nothing is to be parsed'), ins)
            o = Obs('IsPayloadParsed', post)
            r = Run(self.prog, find(self.prog, PAY + '::IsPayloadParsed'), o)
            nn = {}
            cells = {}
            for f in fields:
                off, sz, td = member(self.prog, PAY, f)
                p = M.sym_object(r.m, r.st, 'this.' + f, None, nn=True)
                nn[f] = p.nn
                cells[off] = p
            this = r.obj('this', PAY, cells)
            out.append(r.go(this, Lin(t) if t != 'more' else L(sym('type', 32, (1 << 32) - 1))))
        return out

    def peek(self):
        """GetNalUnitType(): the type in the header of the given bytes"""
        def ctor(o, m, st, ins, dem, args):
            A = [m.val(st, v, t) for t, v, _ in args]
            st.wcells(A[0].obj)[('buf', A[0].off)] = (A[1], A[2])
            return M.done(m, st, ins)

        def parse(o, m, st, ins, dem, args):
            A = [m.val(st, v, t) for t, v, _ in args]
            if len(A) != 2:
                return 'nomodel'
            b = st.mem.get(A[1].obj, {}).get(('buf', A[1].off))
            if b is None or not isinstance(b[0], I.Ptr) or b[0].obj != data.obj or b[0].idx.addc(b[0].off) != ZERO or not st.store.eq(b[1], n):
                o.fail(m, st, ('buffer',), 'parses the header from %r, not from the bytes given' % (b,), ins)
                return 'stop'
            out = []
            for nul in (True, False):
                s = st.copy()
                p = I.NULL if nul else M.sym_object(m, s, 'header', HDR)
                m.storev(s, A[0], p, ins)
                s.aux['hdr'] = not nul
                s.top.idx += 1
                out.append(s)
            return out

        def post(o, m, st, v, ins):
            t = st.store.decide(m.as_cond(st, v))
            if 'hdr' not in st.aux:
                if t is not False:
                    o.fail(m, st, ('noparse',), 'GetNalUnitType() succeeds without reading the header', ins)
                return
            if t is not st.aux['hdr']:
                o.fail(m, st, ('result',), 'GetNalUnitType() returns %s when the header is %s' % (t, 'readable' if st.aux['hdr'] else 'unreadable'), ins)
            elif t:
                off, sz, td = member(self.prog, HDR, 'nal_unit_type')
                want = m.load(st, I.Ptr(('s', 'header')).plus(off), ('i', 32), ins)
                got = m.load(st, dst, ('i', 8), ins)
                if not isinstance(got, Lin) or not st.store.eq(m.norm(st, want, 8, False), got):
                    o.fail(m, st, ('type',), 'GetNalUnitType() gives %r, the header holds %r' % (got, want), ins)
        o = Obs('GetNalUnitType', post, {N + 'BitBuffer::BitBuffer': ctor, N + 'H264NalUnitHeaderParser::ParseNalUnitHeader': parse})
        r = Run(self.prog, find(self.prog, N + 'H264NalUnitHeaderParser::GetNalUnitType'), o)
        n = L(sym('unit length', 0, 1 << 32))
        data = r.raw('data', n)
        dst = r.cell('type')
        off, sz, td = member(self.prog, HDR, 'nal_unit_type')
        r.obj('header', HDR, {off: L(sym('nal_unit_type', 0, 31))})
        return r.go(data, n, dst)


def run(prog, tier='quick'):
    c = Dispatch(prog)
    for fn, f in (('GetSps', 'sps'), ('GetPps', 'pps'), ('GetSubsetSps', 'subset_sps')):
        c.do(fn, lambda: c.getter(fn, f))
    c.do('IsPayloadParsed', c.parsed)
    c.do('GetNalUnitType', c.peek)
    return c


if __name__ == '__main__':
    main(run)
