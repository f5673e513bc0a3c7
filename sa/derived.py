"""Values derived from parsed structures: NAL unit type classes and names,
chroma array type, cropping units, resolution, frame rate, profile names."""
from fractions import Fraction

import interp as I
import models as M
import spec
from contract import *
from dispatch import member
from dom import *

N = 'h264nal::'
SPS = N + 'H264SpsDataParser::SpsDataState'
VUI = N + 'H264VuiParametersParser::VuiParametersState'
NAMES = ['unspecified', 'coded_slice_of_non_idr_picture', 'coded_slice_data_partition_a', 'coded_slice_data_partition_b', 'coded_slice_data_partition_c',
         'coded_slice_of_idr_picture', 'sei', 'sps', 'pps', 'aud', 'eoseq', 'eostream', 'filler_data', 'sps_extension', 'prefix', 'subset_sps', 'rsv16', 'rsv17', 'rsv18',
         'coded_slice_of_auxiliary_coded_picture', 'coded_slice_extension', 'rsv21', 'rsv22', 'rsv23'] + ['unspec%d' % k for k in range(24, 32)]
PROFILES = ['Unspecified', 'Baseline', 'Constrained Baseline', 'Main', 'Extended', 'High', 'Progressive High', 'Constrained High', 'High 10', 'Progressive High 10',
            'High 10 Intra', 'High 4:2:2', 'High 4:2:2 Intra', 'High 4:4:4', 'High 4:4:4 Intra', 'High 4:4:4 Predictive', 'High 4:4:4 Predictive Intra', 'CAVLC 4:4:4 Intra']
SLICE = {1, 2, 3, 4, 5, 19, 20}
RESERVED = {16, 17, 18, 21, 22, 23}
UNSPEC = set(range(24, 32))
STR = 'std::__cxx11::basic_string'


class Derived(Checks):
    def values(self, n, bits):
        return [(str(k), Lin(k)) for k in range(n)] + [('%d or more' % n, L(sym('value%d' % n, n, (1 << bits) - 1)))]

    def flag(self, fn, members):
        """fn(type) tells whether the type is one of the members"""
        out = []
        for nm, v in self.values(32, 32):
            def post(o, m, st, r, ins):
                g = st.store.decide(m.as_cond(st, r))
                w = v.c in members if not v.t else False
                if g is None:
                    o.undecided.append('%s(%s): %r' % (fn, nm, r))
                elif g is not w:
                    o.fail(m, st, (nm,), '%s(%s) is %s' % (fn, nm, g), ins)
            r = Run(self.prog, find(self.prog, N + fn), Obs(fn, post))
            out.append(r.go(v))
        return out

    def text(self, fn, names, other, byref, bits):
        """fn(value) is the name of the value"""
        out = []
        for nm, v in self.values(len(names), bits):
            def ctor(o, m, st, ins, dem, args):
                A = [m.val(st, x, t) for t, x, _ in args]
                s = M.cstring(m, A[1]) if len(A) > 1 else ''
                if isinstance(A[0], I.Ptr) and A[0].obj is not None:
                    st.wcells(A[0].obj)[('str', A[0].off)] = s if s is not None else I.Unk('str')
                return M.done(m, st, ins, A[0] if ins.res else None)

            def post(o, m, st, r, ins):
                p = dst if byref else o.ret_slot
                g = st.mem.get(p.obj, {}).get(('str', p.off))
                w = names[v.c] if not v.t else other
                if not isinstance(g, str):
                    o.undecided.append('%s(%s): %r' % (fn, nm, g))
                elif g != w:
                    o.fail(m, st, (nm,), '%s(%s) is "%s", not "%s"' % (fn, nm, g, w), ins)
            r = Run(self.prog, self.one(fn), Obs(fn, post, {STR + '::basic_string': ctor, STR + '::operator=': ctor, STR + '::assign': ctor}))
            dst = r.cell('str') if byref else None
            out.append(r.go(*([v] + ([dst] if byref else []))))
        return out

    def one(self, fn):
        for n, d in self.prog.demangled.items():
            if (d.startswith(N + fn + '(') or d.startswith(N + fn + '[')) and n in self.prog.fn:
                return self.prog.fn[n]
        raise Anchor(N + fn + ': no definition')

    def sps(self, r, consts):
        cells = {}
        vals = {}
        for o, sz, nm, td in self.prog.structs.get(SPS, []):
            if td[0] in ('u', 's', 'bool') and sz <= 8:
                if nm in consts:
                    vals[nm] = Lin(consts[nm])
                else:
                    vals[nm] = L(sym('sps.' + nm, 0, 65535 if sz >= 2 else 255))
                cells[o] = vals[nm]
        return r.obj('this', SPS, cells), vals

    def cases(self):
        for idc, sep in ((0, 0), (1, 0), (2, 0), (3, 0), (3, 1)):
            for fmo in (0, 1):
                cat = 0 if sep else idc
                cux = 1 if cat == 0 else {1: 2, 2: 2, 3: 1}[cat]
                cuy = (1 if cat == 0 else {1: 2, 2: 1, 3: 1}[cat]) * (2 - fmo)
                yield {'chroma_format_idc': idc, 'separate_colour_plane_flag': sep, 'frame_mbs_only_flag': fmo}, cat, cux, cuy

    def getter(self, fn, pick):
        out = []
        for c, cat, cux, cuy in self.cases():
            w = pick(c, cat, cux, cuy)

            def post(o, m, st, r, ins):
                if not isinstance(r, Lin):
                    o.undecided.append('%s: %r' % (fn, r))
                    return
                g = st.store.const(m.norm(st, r, 32, True))
                if g != w:
                    o.fail(m, st, (repr(c),), '%s() is %r for %s, not %d' % (fn, r, ', '.join('%s %d' % x for x in c.items()), w), ins)
            r = Run(self.prog, find(self.prog, SPS + '::' + fn), Obs(fn, post))
            this, _ = self.sps(r, c)
            out.append(r.go(this))
        return out

    def resolution(self):
        fn = 'getResolution'
        out = []
        for c, cat, cux, cuy in self.cases():
            def post(o, m, st, r, ins):
                w = vals['pic_width_in_mbs_minus1'].addc(1).scale(16).add(vals['frame_crop_left_offset'], -cux).add(vals['frame_crop_right_offset'], -cux)
                h = vals['pic_height_in_map_units_minus1'].addc(1).scale(16 * (2 - c['frame_mbs_only_flag'])).add(vals['frame_crop_top_offset'], -cuy).add(vals['frame_crop_bottom_offset'], -cuy)
                for x in (w, h):
                    a = atom(x, ((1, INF),))
                    d = st.store.decide(a)
                    if d is None:
                        raise I.NeedSplit([a, c_not(a)])
                    if d is False:
                        w = h = Lin(-1)
                        break
                ok = w.t != ()
                g = [m.load(st, p, ('i', 32), ins) for p in (pw, ph)] + [r]
                for x, y, nm in zip(g, (w, h, Lin(0 if ok else -1)), ('the width', 'the height', 'the result')):
                    if not isinstance(x, Lin):
                        o.undecided.append('%s: %r' % (fn, x))
                    elif not st.store.eq(m.norm(st, x, 32, True), y):
                        o.fail(m, st, (nm, repr(c)), '%s() sets %s to %r, not %r, for %s' % (fn, nm, x, y, ', '.join('%s %d' % z for z in c.items())), ins)
            r = Run(self.prog, find(self.prog, SPS + '::' + fn), Obs(fn, post))
            this, vals = self.sps(r, c)
            pw, ph = r.cell('width'), r.cell('height')
            out.append(r.go(this, pw, ph))
        for args in ((0, 1), (1, 0), (0, 0)):
            def post(o, m, st, r, ins):
                if not isinstance(r, Lin) or st.store.const(m.norm(st, r, 32, True)) != -1:
                    o.fail(m, st, ('null',), '%s() returns %r without a place for the result' % (fn, r), ins)
            r = Run(self.prog, find(self.prog, SPS + '::' + fn), Obs(fn, post))
            this, vals = self.sps(r, {})
            out.append(r.go(this, *[r.cell('x%d' % k) if a else I.NULL for k, a in enumerate(args)]))
        return out

    def framerate(self):
        """time_scale / (2 * num_units_in_tick), as a real number"""
        def ratio(v):
            if isinstance(v, FV):
                if v.op == 'c':
                    return Fraction(v.args[0]), (), ()
                if v.op == 'i' and not v.args[0].c and len(v.args[0].t) == 1:
                    i, q = v.args[0].t[0]
                    return Fraction(q), (i,), ()
                if v.op == 'i' and all(Sym.table[i].name in ('vui.time_scale', 'vui.num_units_in_tick') for i, _ in v.args[0].t):
                    return Fraction(0), (), ()      # a sum or wrapped product: not the ratio
                if v.op in ('mul', 'div'):
                    a, b = ratio(v.args[0]), ratio(v.args[1])
                    if a is None or b is None:
                        return None
                    if v.op == 'mul':
                        return a[0] * b[0], tuple(sorted(a[1] + b[1])), tuple(sorted(a[2] + b[2]))
                    return (a[0] / b[0] if b[0] else Fraction(0)), tuple(sorted(a[1] + b[2])), tuple(sorted(a[2] + b[1]))
                if v.op == 'add' and v.args[0] == v.args[1]:
                    a = ratio(v.args[0])
                    return a and (2 * a[0], a[1], a[2])
            return None

        def post(o, m, st, r, ins):
            q = ratio(r)
            if q is None:
                o.undecided.append('getFramerate: %r' % (r,))
            elif q != (Fraction(1, 2), ts.t[0][:1], nu.t[0][:1]):
                o.fail(m, st, ('rate',), 'getFramerate() is %r, not time_scale / (2 * num_units_in_tick)' % (r,), ins)
        r = Run(self.prog, find(self.prog, VUI + '::getFramerate'), Obs('getFramerate', post))
        cells = {}
        vals = {}
        for o, sz, nm, td in self.prog.structs.get(VUI, []):
            if td[0] == 'u':
                cells[o] = vals[nm] = L(sym('vui.' + nm, 0, (1 << (8 * sz)) - 1))
        ts, nu = vals['time_scale'], vals['num_units_in_tick']
        r.assume(atom(nu, ((300, INF),)))
        r.assume(atom(ts, ((300, INF),)))
        return r.go(r.obj('this', VUI, cells))


def run(prog, tier='quick'):
    c = Derived(prog)
    c.do('IsSliceSegment', lambda: c.flag('IsSliceSegment', SLICE))
    c.do('IsNalUnitTypeReserved', lambda: c.flag('IsNalUnitTypeReserved', RESERVED))
    c.do('IsNalUnitTypeUnspecified', lambda: c.flag('IsNalUnitTypeUnspecified', UNSPEC))
    c.do('NalUnitTypeToString', lambda: c.text('NalUnitTypeToString', NAMES, 'unknown', False, 32))
    c.do('profileTypeToString', lambda: c.text('profileTypeToString', PROFILES, 'Unknown', True, 8))
    c.do('getChromaArrayType', lambda: c.getter('getChromaArrayType', lambda k, cat, x, y: cat))
    c.do('getSubWidthC', lambda: c.getter('getSubWidthC', lambda k, cat, x, y: {1: 2, 2: 2, 3: 1}.get(cat, -1)))
    c.do('getSubHeightC', lambda: c.getter('getSubHeightC', lambda k, cat, x, y: {1: 2, 2: 1, 3: 1}.get(cat, -1)))
    c.do('getCropUnitX', lambda: c.getter('getCropUnitX', lambda k, cat, x, y: x))
    c.do('getCropUnitY', lambda: c.getter('getCropUnitY', lambda k, cat, x, y: y))
    c.do('getResolution', c.resolution)
    c.do('getFramerate', c.framerate)
    return c


if __name__ == '__main__':
    main(run)
