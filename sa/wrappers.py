"""Entry points that take bytes: they remove the emulation prevention bytes
once, parse exactly the bytes that result, pass on their other arguments and
return what the parser returned."""
import re

import interp as I
import models as M
import spec
from contract import *
from dom import *

N = 'h264nal::'
BYTES = 'unsigned char const*, unsigned long'
PLAIN = ('ParseNalUnitUnescaped',)          # documented to take bytes that are already unescaped


def wrappers(prog):
    """(definition, target name) of every ParseX(data, length, ...) with a ParseX(BitBuffer*, ...)"""
    names = {}
    for n, d in prog.demangled.items():
        q = M.strip_templates(d)
        if q.startswith(N) and 'BitBuffer*' in d and n in prog.fn:
            names.setdefault(q, []).append(n)
    for n, d in sorted(prog.demangled.items()):
        q = M.strip_templates(d)
        if not q.startswith(N) or n not in prog.fn or not d[len(q) + 1:].startswith(BYTES):
            continue
        t = re.sub('Unescaped$', '', q)
        if t in names:
            yield prog.fn[n], q, t


def wrapper(prog, fn, q, target):
    short = '::'.join(q.split('::')[-2:])
    unescape = q.split('::')[-1] not in PLAIN
    extra = []

    def unesc(o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        p, n = A[1], A[2]
        if not unescape:
            o.fail(m, st, ('unescape',), '%s() unescapes its input' % short, ins)
            return 'stop'
        d = same(m, st, p, n)
        if d is None:
            o.undecided.append('%s: unescapes %r, %r' % (short, p, n))
            return 'stop'
        if not d:
            o.fail(m, st, ('unescape',), '%s() unescapes %r (%r bytes) instead of the bytes it was given' % (short, p, n), ins)
            return 'stop'
        M.set_vec(m, st, A[0], I.Vec(L(sym('rbsp.size', 0, 1 << 48)), (), None, 'rbsp'))
        m.objinfo[A[0].obj].setdefault('elem', 'unsigned char')
        return M.done(m, st, ins)

    def same(m, st, p, n):
        """p, n are the argument bytes"""
        if not isinstance(p, I.Ptr) or not isinstance(n, Lin):
            return None
        if p.obj != data.obj:
            return False
        return st.store.eq(p.idx.addc(p.off), ZERO) and st.store.eq(n, length)

    def ctor(o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        if len(A) != 3 or not isinstance(A[0], I.Ptr):
            return 'nomodel'
        st.wcells(A[0].obj)[('buf', A[0].off)] = (A[1], A[2])
        return M.done(m, st, ins)

    def gone(o, m, st, ins, dem, args):
        A = [m.val(st, v, t) for t, v, _ in args]
        if isinstance(A[0], I.Ptr) and A[0].obj is not None:
            v = st.mem.get(A[0].obj, {}).get(A[0].off)
            if isinstance(v, I.Vec) and v.sname == 'rbsp':
                st.wcells(A[0].obj)[A[0].off] = I.Vec(v.len, (), None, 'destroyed')
        return M.done(m, st, ins)

    def parse(o, m, st, ins, dem, args):
        if 'BitBuffer*' not in dem:
            return 'nomodel'
        A = [m.val(st, v, t) for t, v, _ in args]
        sret = A.pop(0) if 'sret' in (args[0][2] or ()) else None
        b = st.mem.get(A[0].obj, {}).get(('buf', A[0].off)) if isinstance(A[0], I.Ptr) else None
        if b is None:
            o.undecided.append('%s: parses from %r' % (short, A[0]))
            return 'stop'
        p, n = b
        ok = None
        if not isinstance(p, I.Ptr) or not isinstance(n, Lin):
            pass
        elif p.obj == data.obj:
            ok = not unescape and same(m, st, p, n)
            what = 'bytes that were not unescaped' if unescape else 'other bytes than the ones given'
        elif isinstance(p.obj, tuple) and p.obj[0] == 'e':
            v = M.get_vec(m, st, m.objinfo[p.obj]['vec'])
            if v is not None and v.sname in ('rbsp', 'destroyed'):
                ok = v.sname == 'rbsp' and st.store.eq(p.idx.addc(p.off), ZERO) and st.store.eq(n, v.len)
                what = 'a buffer that is already destroyed' if v.sname != 'rbsp' else '%r bytes from %r on, not all of the unescaped bytes' % (n, p.idx.addc(p.off))
        if ok is None:
            o.undecided.append('%s: parses from %r' % (short, b))
            return 'stop'
        if not ok:
            o.fail(m, st, ('buffer',), '%s() parses %s' % (short, what), ins)
            return 'stop'
        if st.aux.get('parsed'):
            o.fail(m, st, ('twice',), '%s() parses the structure twice' % short, ins)
            return 'stop'
        got = A[1:]
        if len(got) != len(extra):
            o.undecided.append('%s: %d arguments' % (short, len(got)))
            return 'stop'
        for k, (g, w) in enumerate(zip(got, extra)):
            if isinstance(g, I.Blob) and len(g.cells) == 1 and g.cells[0][0] == 0:
                g = g.cells[0][1]
            same_ = g == w if not isinstance(w, Lin) else isinstance(g, Lin) and st.store.eq(g, w)
            if not same_:
                if isinstance(g, I.Unk):
                    o.undecided.append('%s: argument %r' % (short, g))
                    return 'stop'
                o.fail(m, st, ('arg', k), '%s() passes %r where its own argument is %r' % (short, g, w), ins)
        st.aux['parsed'] = True
        res = M.sym_object(m, st, 'parsed', None, nn=True)
        if sret is not None:
            m.storev(st, sret, res, ins)
            return M.done(m, st, ins)
        return M.done(m, st, ins, res)

    def post(o, m, st, v, ins):
        v = m.load(st, o.ret_slot, ir.PTR, ins) if o.ret_slot is not None else v
        if not st.aux.get('parsed'):
            c = st.store.decide(atom(length, ((0, 0),)))
            if isinstance(v, I.Ptr) and v.obj is None:
                # gives up without parsing: only for no bytes at all
                if st.store.rng(length)[1] > 0:
                    o.fail(m, st, ('noparse',), '%s() fails without parsing the bytes' % short, ins)
            else:
                o.undecided.append('%s: returns %r' % (short, v))
            return
        if not isinstance(v, I.Ptr):
            o.undecided.append('%s: returns %r' % (short, v))
        elif v.obj != ('s', 'parsed'):
            d = st.store.decide(m.nonnull(st, I.Ptr(('s', 'parsed'), ZERO, 0, sym('nn(parsed)', 0, 1).id)))
            if v.obj is None and d is False:
                return
            o.fail(m, st, ('result',), '%s() returns %r, not what the parser returned' % (short, v), ins)

    o = Obs(short, post, {N + 'UnescapeRbsp': unesc, N + 'BitBuffer::BitBuffer': ctor, target: parse, 'std::vector::~vector': gone})
    r = Run(prog, fn, o)
    length = L(sym('byte length', 0, 1 << 48))
    data = r.raw('data', length)
    for k, (ty, n, at) in enumerate(r.params[2:]):
        if ty[0] == 'i':
            extra.append(L(sym('extra%d of %d bits' % (k, ty[1]), 0, (1 << ty[1]) - 1)))
        else:
            extra.append(r.obj('arg%d' % k, None))
    return r.go(data, length, *extra)


def run(prog, tier='quick'):
    c = Checks(prog)
    for fn, q, t in wrappers(prog):
        c.do('::'.join(q.split('::')[-2:]), lambda: wrapper(prog, fn, q, t))
    return c


if __name__ == '__main__':
    main(run)
