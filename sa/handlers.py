"""Handlers for repository helpers that are specification events, and
specification-level functions."""
from dom import *
import interp as I
import models as M
from spec import PCKEY, MODE


def h_unimpl(o, m, st, ins, args):
    A = [m.val(st, v, t) for t, v, _ in args]
    txt = M.cstring(m, A[0]) if A else None
    if st.aux[MODE] != 'live':
        return M.done(m, st, ins, I.Unk('u'))
    n = o.node(m, st, ins, unimpl=True)
    if n[0] not in ('unimpl', 'skipped'):
        o.report(m, st, 'OVERREJECT', ('unimpl', txt or ''), 'reports %s as unsupported where the syntax has %s' % (txt, o.describe(n)), ins)
        o.report(m, st, 'SYNTAX', ('unimpl', txt or ''), 'reports %s as unsupported where the syntax has %s' % (txt, o.describe(n)), ins)
        return 'stop'
    if txt is not None and txt != n[1]:
        o.report(m, st, 'UNIMPL', ('name', n[1]), 'reports %s where the syntax has %s' % (txt, o.describe(n)), ins)
    st.aux[MODE] = ('dead', 'UNIMPL', n[1])
    o.die(st, 'UNIMPL', n[1])
    M.done(m, st, ins, I.Unk('u'))
    st.top.idx += 1
    return [st]


def h_trailing(o, m, st, ins, args):
    r = atom(L(fresh('trailing', 0, 1)), ((1, 1),))
    if st.aux[MODE] != 'live':
        return M.done(m, st, ins, r)
    n = o.node(m, st)
    if n[0] != 'trailing':
        o.report(m, st, 'SYNTAX', ('trailing', n[0]), 'consumes trailing bits where the syntax has %s' % o.describe(n), ins)
        return 'stop'
    st.aux[PCKEY] += 1
    M.done(m, st, ins, r)
    st.top.idx += 1
    return o.expand(m, st)


def h_more(o, m, st, ins, args):
    return M.done(m, st, ins, atom(st.mem[I.SPEC][('more',)], ((1, 1),)))


def h_remaining(o, m, st, ins, args):
    return M.done(m, st, ins, o.remaining(st))


def h_offset(o, m, st, ins, args):
    if st.aux[MODE] != 'live':
        return M.done(m, st, ins, L(fresh('dead', 0, 1 << 35)))
    return M.done(m, st, ins, L(sym('offset(%r)' % o.remaining(st), 0, 1 << 40)))


def f_profile_type(o, m, st, a):
    E = o.lib.enums.get('h264nal::ProfileType') or o.lib.enums.get('ProfileType')
    idc, c1, c3, c4, c5 = [m.int(st, x) for x in a]

    def ask(lin, vals):
        c = atom(lin, is_norm([(v, v) for v in vals]))
        d = st.store.decide(c)
        if d is None:
            raise I.NeedSplit([c, c_not(c)])
        return d
    T = {77: 'MAIN', 88: 'EXTENDED', 44: 'CAVLC_444_INTRA'}
    for k, v in T.items():
        if ask(idc, [k]):
            return Lin(E[v])
    if ask(idc, [66]):
        return Lin(E['CONSTRAINED_BASELINE' if ask(c1, [1]) else 'BASELINE'])
    if ask(idc, [100]):
        return Lin(E['PROGRESSIVE_HIGH' if ask(c4, [1]) else ('CONSTRAINED_HIGH' if ask(c5, [1]) else 'HIGH')])
    if ask(idc, [110]):
        return Lin(E['HIGH_10_INTRA' if ask(c3, [1]) else ('PROGRESSIVE_HIGH_10' if ask(c4, [1]) else 'HIGH_10')])
    for k, base in ((122, 'HIGH_422'), (144, 'HIGH_444'), (244, 'HIGH_444_PRED')):
        if ask(idc, [k]):
            return Lin(E[base + '_INTRA' if ask(c3, [1]) else base])
    return Lin(E['UNSPECIFIED'])


def install(lib):
    lib.handlers['h264nal::report_unimplemented'] = h_unimpl
    lib.handlers['h264nal::rbsp_trailing_bits'] = h_trailing
    lib.handlers['h264nal::more_rbsp_data'] = h_more
    lib.handlers['h264nal::BitBuffer::RemainingBitCount'] = h_remaining
    lib.handlers['h264nal::get_current_offset'] = h_offset
    lib.events['h264nal::BitBuffer::Seek'] = 'seek'
    lib.funcs['profile_type_f'] = f_profile_type
    lib.enums = lib.prog.enums()
