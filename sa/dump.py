"""Text dumps: every line of a dump names a member of the structure and shows
that member's value; lists are complete and in order; an element is shown when
the syntax has it and left out when it has not; nothing absent is dereferenced.

Each fdump() is interpreted from a symbolic structure as its parser returns it.
The text it writes is followed character by character through a small state
machine (open groups, pending label), so that it does not matter how the calls
that write it are arranged."""
import ast
import re
import textwrap

import interp as I
import ir
import models as M
import spec
import specs
from contract import *
from dispatch import PAYLOAD
from dom import *

N = 'h264nal::'
CONV = re.compile(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])')
SIGNED, UNSIGNED = 'di', 'uxXo'
OUT, POS, SEEN, REL, ARGS = 'out', ('pos',), 'seen', 'rel', 'dump'

# labels that are not members: what they show
DERIVED = {
    (N + 'H264SpsDataParser::SpsDataState', 'profile'): ('text', 'profile_type'),
    (N + 'H264SpsDataParser::SpsDataState', 'width'): ('sym', 'resolution.width'),
    (N + 'H264SpsDataParser::SpsDataState', 'height'): ('sym', 'resolution.height'),
    (N + 'H264NalUnitParser::NalUnitState', 'checksum'): ('text', 'checksum'),
    (N + 'H264RtpStapAParser::RtpStapAState', 'nal_unit_size'): ('elem', 'nal_unit_sizes'),
}
# shown on request only: label -> member of ParsingOptions
ASKED = {
    (N + 'H264SpsDataParser::SpsDataState', 'width'): 'add_resolution',
    (N + 'H264SpsDataParser::SpsDataState', 'height'): 'add_resolution',
    (N + 'H264NalUnitParser::NalUnitState', 'offset'): 'add_offset',
    (N + 'H264NalUnitParser::NalUnitState', 'length'): 'add_length',
    (N + 'H264NalUnitParser::NalUnitState', 'parsed_length'): 'add_parsed_length',
    (N + 'H264NalUnitParser::NalUnitState', 'checksum'): 'add_checksum',
}
# shown with their inferred value when they are not in the structure
ALWAYS = {(N + 'H264RefPicListModificationParser::RefPicListModificationState', 'ref_pic_list_modification_flag_l%d' % k) for k in (0, 1)}
# argument of a nested dump that tells it the type of the payload
TYPE_OF = {
    N + 'H264NalUnitParser::NalUnitState': 'nal_unit_header.nal_unit_type',
    N + 'H264RtpSingleParser::RtpSingleState': 'nal_unit_header.nal_unit_type',
    N + 'H264RtpFuAParser::RtpFuAState': 'fu_type',
}


def all_of(cs):
    r = True
    for c in cs:
        r = c_and(r, c)
    return r


def any_of(cs):
    r = False
    for c in cs:
        r = c_or(r, c)
    return r


class Unknown(Exception):
    pass


class Presence:
    """when is an element in the syntax: conditions over the members"""

    def __init__(self, sp):
        self.alts = {}        # name -> [[(expr, truth)...], ...]
        self.kind = {}
        self.inner = {}       # list of lists -> length of each
        self.length = {}      # list -> expression for its length when present
        self.turns = {}       # name -> the counts of the loops around each occurrence
        self.vars = set()     # loop counters
        if sp is not None:
            self.walk(ast.parse(textwrap.dedent(sp.src)).body, [])

    def walk(self, body, conds, loop=None, var=None, turns=()):
        for s in body:
            if isinstance(s, ast.Assign):
                t = s.targets[0]
                vec = isinstance(t, ast.Subscript)
                if vec and isinstance(t.value, ast.Subscript) and isinstance(loop, ast.Constant) and isinstance(t.slice, ast.Name) and t.slice.id == var:
                    self.inner[t.value.value.id] = loop.value
                while isinstance(t, ast.Subscript):
                    t = t.value
                v = s.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('ue', 'se', 'u', 'nested', 'vector'):
                    self.kind[t.id] = 'vec' if vec else 'ptr' if v.func.id == 'nested' else 'scalar'
                    self.length[t.id] = loop if loop is not None and vec and t.id not in self.alts and conds.count(None) == 1 and conds[-1] is None else None
                    self.alts.setdefault(t.id, []).append(list(conds))
                    self.turns.setdefault(t.id, []).append(turns)
            elif isinstance(s, ast.If):
                self.walk(s.body, conds + [(s.test, True)], turns=turns)
                self.walk(s.orelse, conds + [(s.test, False)], turns=turns)
            elif isinstance(s, (ast.For, ast.While)):
                it = getattr(s, 'iter', None)
                n = it.args[0] if isinstance(it, ast.Call) and len(it.args) == 1 else None
                if isinstance(s, ast.For):
                    self.vars.add(s.target.id)
                self.walk(s.body, conds + [None], n, s.target.id if n is not None else None, turns + ((n,) if n is not None else ()))
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, 'id', '') == 'unimplemented':
                # a structure that needs this is never returned
                self.dead = getattr(self, 'dead', []) + [list(conds)]


class DumpMachine(I.Machine):
    def goto(self, st, block):
        f = st.top
        if (f.fn.name, f.block) in self.obs.relevant:
            r = st.aux.get(REL, ()) + ((len(st.frames), f.block, block),)
            if len(r) > 40:
                raise I.Undecided('dump: too many decisions')
            st.aux[REL] = r
        return super().goto(st, block)


class DumpObs(Obs):
    """follows the text of one fdump()"""

    def __init__(self, chk, struct, label=None, relevant=()):
        super().__init__('fdump ' + struct.split('::')[-1])
        self.chk, self.struct, self.label = chk, struct, label
        self.relevant = relevant
        self.pre = struct.split('::')[-1] + '.'
        self.nomerge = False
        self.members = {nm: (o, sz, td) for o, sz, nm, td in chk.prog.structs.get(struct, [])}
        self.pres = Presence(chk.lib.bystruct.get(struct))
        self.events = {}       # label -> set of site tuples
        self.lib = chk.lib
        self.copied = chk.copied(struct)
        self.handlers = {
            'fprintf': self.h_fprintf, 'fputs': self.h_fputs, 'fputc': self.h_fputc, 'putc': self.h_fputc, '_IO_putc': self.h_fputc, 'fwrite': self.h_fwrite,
            N + 'fdump_indent_level': self.h_indent, N + 'indent_level_incr': self.h_same, N + 'indent_level_decr': self.h_same,
            N + 'H264SpsDataParser::SpsDataState::getResolution': self.h_resolution,
            N + 'profileTypeToString': self.h_totext,
            'std::__cxx11::basic_string::basic_string': self.h_str0, 'std::__cxx11::basic_string::~basic_string': self.h_void,
            'std::__cxx11::basic_string::c_str': self.h_cstr, 'std::__cxx11::basic_string::data': self.h_cstr,
        }

    apart_n = 400
    window = None

    # ---- inputs
    def lazy_value(self, m, st, full, td, ty, info, fname):
        if full == self.pre + fname and ty[0] == 'i' and fname in self.copied:
            lo, hi = M.typed_range(td, ty[1])
            a, b = self.copied[fname]
            return L(M.mk_sym(m, full, max(lo, a), min(hi, b)))
        return spec.SpecObserver.lazy_value(self, m, st, full, td, ty, info, fname)

    def mem_sym(self, m, st, name):
        """value of member `name` (dotted path) of this"""
        p = m.dump_this
        struct = self.struct
        parts = name.split('.')
        for i, x in enumerate(parts):
            mem = {nm: (o, sz, td) for o, sz, nm, td in m.prog.structs.get(struct, [])}
            if x not in mem:
                raise Unknown(name)
            o, sz, td = mem[x]
            if i == len(parts) - 1:
                if td[0] == 'cls' and 'ptr<' in td[1]:
                    return m.load(st, p.plus(o), ir.PTR, None)
                if td[0] == 'cls':
                    raise Unknown(name)
                return m.load(st, p.plus(o), ('i', 8 * sz), None)
            q = m.load(st, p.plus(o), ir.PTR, None)
            if not isinstance(q, I.Ptr) or q.obj is None:
                raise Unknown(name)
            struct = M.tmpl_arg(td[1], 'std::unique_ptr') or M.tmpl_arg(td[1], 'std::shared_ptr') if td[0] == 'cls' else None
            p = q

    def num(self, m, st, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return Lin(int(e.value))
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = self.mem_sym(m, st, ast.unparse(e))
            if isinstance(v, Lin) or isinstance(v, I.Ptr):
                return v
            raise Unknown(ast.unparse(e))
        if isinstance(e, ast.BinOp):
            a, b = self.num(m, st, e.left), self.num(m, st, e.right)
            if isinstance(e.op, ast.Add):
                return a.add(b)
            if isinstance(e.op, ast.Sub):
                return a.add(b, -1)
            if isinstance(e.op, ast.Mod) and not b.t:
                lo, hi = st.store.rng(a)
                if self.window is not None and 0 <= lo < 64 <= hi:
                    # looking for one example: small values will do
                    hi = 63
                    self.window.append(atom(a, ((lo, hi),)))
                if 0 <= lo and hi < 64 and len(a.t) == 1:
                    return ('mod', a, b.c, lo, hi)
        raise Unknown(ast.unparse(e))

    def cond(self, m, st, e):
        if isinstance(e, ast.BoolOp):
            cs = [self.cond(m, st, x) for x in e.values]
            return (all_of if isinstance(e.op, ast.And) else any_of)(cs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return c_not(self.cond(m, st, e.operand))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, r = e.ops[0], e.comparators[0]
            if isinstance(r, ast.Constant) and r.value is None:
                c = m.nonnull(st, self.num(m, st, e.left))
                return c if isinstance(op, (ast.NotEq, ast.IsNot)) else c_not(c)
            a = self.num(m, st, e.left)
            if isinstance(op, (ast.In, ast.NotIn)):
                ks = [self.num(m, st, x).c for x in r.elts]
            else:
                b = self.num(m, st, r)
                if isinstance(a, tuple):
                    if b.t:
                        raise Unknown('mod')
                    ks = [b.c]
                    if isinstance(op, ast.NotEq):
                        op = ast.NotIn()
                    elif isinstance(op, ast.Eq):
                        op = ast.In()
                    else:
                        raise Unknown('mod')
                else:
                    d = a.add(b, -1)
                    iv = {ast.Eq: ((0, 0),), ast.NotEq: ((-INF, -1), (1, INF)), ast.Lt: ((-INF, -1),), ast.LtE: ((-INF, 0),), ast.Gt: ((1, INF),), ast.GtE: ((0, INF),)}.get(type(op))
                    if iv is None:
                        raise Unknown('compare')
                    return atom(d, iv)
            if isinstance(a, tuple):
                _, x, k, lo, hi = a
                vals, a = [v for v in range(lo, hi + 1) if v % k in ks], x
            else:
                vals = ks
            c = any_of([atom(a, ((v, v),)) for v in sorted(set(vals))]) if vals else False
            return c if isinstance(op, ast.In) else c_not(c)
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = self.num(m, st, e)
            return m.nonnull(st, v) if isinstance(v, I.Ptr) else c_not(atom(v, ((0, 0),)))
        raise Unknown(ast.unparse(e))

    def presence(self, m, st, name):
        """(condition, exact) under which element `name` is in the structure"""
        exact = True
        alts = []
        for conds in self.pres.alts[name]:
            cs = []
            for c in conds:
                if c is None:
                    exact = False
                    continue
                try:
                    x = self.cond(m, st, c[0])
                    cs.append(x if c[1] else c_not(x))
                except Unknown:
                    exact = False
            alts.append(all_of(cs) if cs else True)
        return (any_of(alts) if len(alts) != 1 else alts[0]), exact

    def may_have(self, m, st, name):
        """condition under which list `name` can have elements, None if unknown.
        Conditions on the elements of lists are taken to be satisfiable: the syntax
        tables have no dead branches"""
        self.window = []
        try:
            c = self.may_have1(m, st, name)
            return None if c is None else all_of([c] + self.window)
        finally:
            self.window = None

    def may_have1(self, m, st, name):
        alts = []
        for conds, turns in zip(self.pres.alts[name], self.pres.turns[name]):
            cs, loop = [], False
            for n in turns:
                try:
                    cs.append(atom(self.num(m, st, n), ((1, INF),)))
                except Unknown:
                    pass
            for c in conds:
                if c is None:
                    loop = True
                    continue
                try:
                    x = self.cond(m, st, c[0])
                    cs.append(x if c[1] else c_not(x))
                except Unknown:
                    names = {x.id for x in ast.walk(c[0]) if isinstance(x, ast.Name)}
                    if not loop or not any(self.pres.kind.get(x) == 'vec' or x in self.pres.vars for x in names):
                        return None
            alts.append(all_of(cs) if cs else True)
        return any_of(alts) if len(alts) != 1 else alts[0]

    def legal(self, m, st):
        """structures whose parse needs something unsupported are never returned"""
        out = True
        for conds in getattr(self.pres, 'dead', []):
            try:
                cs = [self.cond(m, st, c[0]) if c[1] else c_not(self.cond(m, st, c[0])) for c in conds if c is not None]
            except Unknown:
                continue
            out = all_of([out, c_not(all_of(cs))])
        return out

    def inferred(self, m, st):
        """elements the presence of this one depends on have their default when absent"""
        out = True
        names = set()
        for conds in self.pres.alts.get(self.label, []):
            for c in conds:
                if c is not None:
                    names |= {x.id for x in ast.walk(c[0]) if isinstance(x, ast.Name)}
        sp = self.lib.bystruct.get(self.struct)
        for n in sorted(names):
            if self.pres.kind.get(n) != 'scalar' or n == self.label:
                continue
            c, exact = self.presence(m, st, n)
            if exact and c is not True:
                v = self.mem_sym(m, st, n)
                if isinstance(v, Lin):
                    k = sp.defaults.get(n, 0)
                    out = c_and(out, c_or(c, atom(v, ((k, k),))))
        return out

    def feasible(self, m, st, c):
        """a store in which c holds and the structure can have been parsed, or None"""
        if c is False:
            return None
        for s in (st.store.assume(c, True) if c is not True else [st.store]):
            g = c_and(self.legal(m, st), self.inferred(m, st))
            for s2 in (s.assume(g, True) if g is not True else [s]):
                return s2
        return None

    def cannot(self, m, st, name, bad):
        """bad(length) cannot hold in a structure the parser returns, where the list is
        as long as the syntax says"""
        n = self.pres.length.get(name)
        if n is None:
            return False
        try:
            k = self.num(m, st, n)
        except Unknown:
            return False
        p, _ = self.presence(m, st, name)
        for q, k in ((p, k), (c_not(p), ZERO)):
            if q is False:
                continue
            for s in (st.store.assume(q, True) if q is not True else [st.store]):
                if s.decide(bad(k)) is not False:
                    return False
        return True

    # ---- memory
    def deref(self, m, st, p, ins, kind):
        self.stats['accesses'] += 1
        if p.obj is None:
            self.report(m, st, 'DEREF', ('null',), 'the dump dereferences a null pointer', ins)
            return
        if st.store.decide(m.nonnull(st, p)) is True:
            return
        nm = m.objinfo.get(p.obj, {}).get('sym') or ''
        x = nm[len(self.pre):] if nm.startswith(self.pre) else None
        if x == 'checksum' and self.struct.endswith('NalUnitState'):
            pass                   # dump options need not be the parse options
        elif x in self.pres.alts:
            if self.label != x:
                return             # decided in the run that follows x
            c, exact = self.presence(m, st, x)
            if c is True or st.store.decide(c) is True:
                return
            if not exact:
                self.undecided.append('%s: whether %s is present' % (self.name, x))
                return
            if self.feasible(m, st, c_not(c)) is None:
                return
        elif nm.startswith(self.pre) and '[' in nm:
            return                # elements of a list of structures: each was parsed
        self.report(m, st, 'DEREF', ('maybe', nm), 'the dump dereferences %s, which may be absent' % (nm.replace(self.pre, '') or p.obj), ins)

    def index(self, m, st, p, v, ins, kind):
        self.stats['accesses'] += 1
        if v is None or not (v.sname or '').startswith(self.pre):
            return
        ln = v.len
        # an index that counts up by ones from the start stays within as long
        # as it stops at the end
        bad = lambda n: atom(n.add(p.idx, -1), ((0 if p.idx.t else -INF, 0),))
        if st.store.decide(bad(ln)) is not False and not self.cannot(m, st, v.sname[len(self.pre):], bad):
            self.report(m, st, 'INDEX', ('oob', v.sname), 'the dump reads %s at %r, not shown to be within it' % (v.sname.replace(self.pre, ''), p.idx), ins)

    # ---- text
    def site(self, st):
        for f in st.frames:
            self.chk.fns[f.fn.name] = f.fn
        return tuple((f.fn.name, f.block) for f in st.frames)

    def event(self, m, st, label, ins):
        self.events.setdefault(label, set()).add(self.site(st))
        if label == self.label:
            self.shown(m, st, label, ins)
            st.aux[SEEN] = 1

    def need(self, m, st, label):
        """(condition, exact) under which the dump shows `label`"""
        if (self.struct, label) in ASKED:
            o, sz, td = {nm: (o, sz, td) for o, sz, nm, td in m.prog.structs[N + 'ParsingOptions']}[ASKED[self.struct, label]]
            c = c_not(atom(m.dump_opts[o], ((0, 0),)))
            if label == 'checksum':
                c = c_and(c, m.nonnull(st, self.mem_sym(m, st, label)))
            return c, True
        if self.struct.endswith('NalUnitPayloadState'):
            c = any_of([atom(m.dump_type, ((k, k),)) for k, x in PAYLOAD.items() if x == label])
            return c_and(c, m.nonnull(st, self.mem_sym(m, st, label))), True
        return self.presence(m, st, label)

    def known(self, label):
        return label in self.pres.alts or (self.struct, label) in ASKED or self.struct.endswith('NalUnitPayloadState') and label in PAYLOAD.values()

    def own(self, m, st, s, label, here):
        """the member's own pointer is set exactly when it is present"""
        if self.pres.kind.get(label) != 'ptr':
            return s
        p = m.load(st, m.dump_this.plus(self.members[label][0]), ir.PTR, None)
        if isinstance(p, I.Ptr) and p.obj is not None and p.nn is not None:
            r = s.assume(m.nonnull(st, p), here)
            return r[0] if r else None
        return s

    def shown(self, m, st, label, ins):
        if not self.known(label) or self.pres.kind.get(label) == 'vec' or (self.struct, label) in ALWAYS:
            return
        c, exact = self.need(m, st, label)
        # conditions that cannot be expressed over the members only make it rarer
        if c is True or st.store.decide(c) is True:
            return
        s = self.feasible(m, st, c_not(c))
        if s is not None:
            s = self.own(m, st, s, label, False)
        if s is not None:
            self.fail(m, st, ('shown', label), 'the dump shows %s although it is not in the structure' % label, ins)

    def returned(self, m, st, v, ins, depth=0):
        self.stats['returns'] += 1
        out = st.aux.get(OUT, ((), ''))
        if out[0] and self.label is None:
            self.fail(m, st, ('open',), 'the dump ends with %d group(s) open' % len(out[0]), ins)
        if self.label is None:
            for x in self.lists():
                n = st.mem.get(I.SPEC, {}).get(('cnt', self.pre + x), ZERO)
                ln = self.vec(m, st, self.lists()[0]).len
                if not st.store.eq(n, ln):
                    self.fail(m, st, ('length', x), 'the dump shows %r elements of %s, which has %r' % (n, x, ln), ins)
        if self.label is not None and not st.aux.get(SEEN) and self.known(self.label):
            if self.label in self.lists():
                return
            if self.pres.kind.get(self.label) == 'vec' and self.is_list(self.label):
                c = self.may_have(m, st, self.label)
                if c is None:
                    return
                c = c_and(c, atom(self.vec(m, st, self.label).len, ((1, INF),)))
            else:
                c, exact = self.need(m, st, self.label)
                if not exact:
                    return
            s = self.feasible(m, st, c)
            if s is not None:
                s = self.own(m, st, s, self.label, True)
            if s is not None:
                self.fail(m, st, ('hidden', self.label), 'the dump leaves out %s although it is in the structure' % self.label, ins)

    def setpos(self, st, k, v):
        c = st.wcells(I.SPEC)
        if v is None:
            c.pop(k, None)
        else:
            c[k] = v

    def text(self, m, st, s, ins):
        stack, buf = st.aux.get(OUT, ((), ''))
        for ch in s:
            if ch == '{':
                nm = buf.strip()
                st.aux[OUT] = (stack + (nm,), '')
                self.opened(m, st, stack, nm, ins)
                stack, buf = st.aux[OUT]
            elif ch == '}':
                if not stack:
                    self.fail(m, st, ('close',), 'the dump closes a group that is not open', ins)
                    continue
                self.closed(m, st, stack, ins)
                stack, buf = stack[:-1], ''
            elif ch == '\n':
                buf = ''
            else:
                buf += ch
        st.aux[OUT] = (stack, buf)

    def is_list(self, nm):
        if nm in self.members:
            td = self.members[nm][2]
            return td[0] == 'cls' and td[1].startswith('std::vector')
        return False

    def opened(self, m, st, stack, nm, ins):
        if len(stack) == 0:
            return
        if self.is_list(nm) and len(stack) == 1:
            self.setpos(st, ('pos', 1), ZERO)
            self.event(m, st, nm, ins)
        elif nm == '' and len(stack) == 2:
            self.setpos(st, ('pos', 2), ZERO)
        elif nm not in self.members and not nm.endswith('()'):
            self.fail(m, st, ('group', nm), 'the dump shows a list "%s", which is not a member of the structure' % nm, ins)

    def vec(self, m, st, name):
        return M.get_vec(m, st, m.dump_this.plus(self.members[name][0]))

    def closed(self, m, st, stack, ins):
        if len(stack) < 2 or not self.is_list(stack[1]):
            return
        d = len(stack) - 1
        pos = st.mem.get(I.SPEC, {}).get(('pos', d))
        v = self.vec(m, st, stack[1])
        if d == 2:
            o = st.mem.get(I.SPEC, {}).get(('inner',))
            self.setpos(st, ('pos', 2), None)
            k = st.mem[I.SPEC].get(('pos', 1))
            ln = M.sym_vec(m, '%s[%r]' % (v.sname, k)).len if k is not None else None
            self.setpos(st, ('pos', 1), k.addc(1) if k is not None else None)
        else:
            ln = v.len
            self.setpos(st, ('pos', 1), None)
        if pos is None or ln is None:
            self.undecided.append('%s: length of %s' % (self.name, stack[1]))
        elif not st.store.eq(pos, ln) and not (d != 2 and self.cannot(m, st, stack[1], lambda n: c_not(atom(pos.add(n, -1), ((0, 0),))))):
            self.fail(m, st, ('length', stack[1]), 'the dump shows %r elements of %s, which has %r' % (pos, stack[1], ln), ins)

    def shows(self, m, st, v, conv, ln, ty, ins):
        """a converted value after the pending text"""
        self.stats['calls'] += 1
        stack, buf = st.aux.get(OUT, ((), ''))
        b = buf.strip()
        if conv in 'xXs' and b.endswith('0x'):
            b = b[:-2].strip()
        st.aux[OUT] = (stack, '')
        if isinstance(v, Lin) and ty[0] == 'i':
            self.form(m, st, v, conv, ln, ty, b or (stack[1] if len(stack) > 1 else ''), ins)
        if b.endswith(':'):
            return self.scalar(m, st, b[:-1].strip(), v, conv, ins)
        if b == '' and len(stack) >= 2 and self.is_list(stack[1]):
            return self.element(m, st, stack, v, ins)
        self.undecided.append('%s: text "%s"' % (self.name, buf[-40:]))

    def form(self, m, st, v, conv, ln, ty, what, ins):
        w = ty[1]
        need = 64 if ln in ('z', 'l', 'll', 'j', 't') else 32
        if w != need:
            self.fail(m, st, ('width', what), 'the dump shows a %d-bit value with a %d-bit conversion (%s)' % (w, need, what), ins)
            return
        # the mathematical value, from the type of the member it comes from
        lo, hi = st.store.rng(v)
        if conv in SIGNED and hi >= 1 << (w - 1) and lo >= 0:
            self.fail(m, st, ('sign', what), 'the dump shows an unsigned value as signed (%s)' % what, ins)
        if conv in UNSIGNED and lo < 0:
            self.fail(m, st, ('sign', what), 'the dump shows a signed value as unsigned (%s)' % what, ins)

    def scalar(self, m, st, label, v, conv, ins):
        d = DERIVED.get((self.struct, label))
        if d is not None:
            ok = None
            if d[0] == 'text':
                ok = isinstance(v, tuple) and v[0] == 'text' and v[1] == d[1]
                if not isinstance(v, tuple):
                    ok = None
            elif d[0] == 'sym':
                ok = isinstance(v, Lin) and v == L(sym(d[1], -(1 << 31), (1 << 31) - 1))
            elif d[0] == 'elem':
                e = self.elem_of(m, v)
                ok = e is not None and e[0] == self.pre + d[1]
                if ok:
                    self.counted(m, st, e, ins)
            if ok is False:
                self.fail(m, st, ('value', label), 'the dump shows %r as %s' % (v, label), ins)
            elif ok is None:
                self.undecided.append('%s: %s shows %r' % (self.name, label, v))
            self.event(m, st, label, ins)
            return
        if label not in self.members:
            self.fail(m, st, ('label', label), 'the dump shows "%s", which is not a member of the structure' % label, ins)
            return
        self.event(m, st, label, ins)
        try:
            w = self.mem_sym(m, st, label)
        except Unknown:
            self.undecided.append('%s: member %s' % (self.name, label))
            return
        if not isinstance(v, Lin) or not isinstance(w, Lin):
            self.undecided.append('%s: %s shows %r' % (self.name, label, v))
        elif not st.store.eq(v, w) and not self.same_bits(m, st, v, w):
            self.fail(m, st, ('value', label), 'the dump shows %r as %s' % (v, label), ins)

    def same_bits(self, m, st, v, w):
        return any(st.store.eq(m.norm(st, v, k, s), m.norm(st, w, k, s)) for k in (32, 64) for s in (True, False))

    def elem_of(self, m, v):
        if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            return m.elemsym.get(Sym.table[v.t[0][0]].name)
        return None

    def element(self, m, st, stack, v, ins):
        d = len(stack) - 1
        pos = st.mem.get(I.SPEC, {}).get(('pos', d))
        e = self.elem_of(m, v)
        name = stack[1]
        vec = self.vec(m, st, name)
        if pos is None or vec is None:
            self.undecided.append('%s: element of %s' % (self.name, name))
            return
        self.setpos(st, ('pos', d), pos.addc(1))
        want = vec.sname
        if d == 2:
            k = st.mem[I.SPEC].get(('pos', 1))
            want = '%s[%r]' % (vec.sname, k)
        if e is None:
            if isinstance(v, Lin) and not any(I.SOFT.match(Sym.table[i].name) for i, _ in v.t):
                self.fail(m, st, ('element', name), 'the dump shows %r as an element of %s' % (v, name), ins)
            else:
                self.undecided.append('%s: element %r of %s' % (self.name, v, name))
        elif e[0] != want:
            self.fail(m, st, ('element', name), 'the dump shows an element of %s in the list %s' % (e[0].replace(self.pre, ''), name), ins)
        elif not st.store.eq(e[1], pos):
            self.fail(m, st, ('order', name), 'the dump shows element %r of %s in place %r' % (e[1], name, pos), ins)

    # ---- calls
    def vals(self, m, st, args):
        return [m.val(st, x, t) for t, x, _ in args]

    def to(self, m, st, p, ins):
        if isinstance(p, I.Ptr) and p.obj is not None and p.obj != m.dump_out.obj:
            return False
        return True

    def h_fprintf(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        if not self.to(m, st, A[0], ins):
            return M.done(m, st, ins, L(fresh('?printed', 0, 1 << 20)))
        fmt = M.cstring(m, A[1])
        if fmt is None:
            raise I.Undecided('dump: format')
        i, k = 0, 2
        for mm in CONV.finditer(fmt):
            self.text(m, st, fmt[i:mm.start()], ins)
            i = mm.end()
            conv = mm.group(5)
            if conv == '%':
                self.text(m, st, '%', ins)
                continue
            if k >= len(A):
                self.fail(m, st, ('missing',), 'the dump converts an argument that is not there', ins)
                break
            v, ty = A[k], args[k][0]
            k += 1
            if conv == 's':
                s = M.cstring(m, v) if isinstance(v, I.Ptr) else None
                if s is not None:
                    self.text(m, st, s, ins)
                else:
                    self.shows(m, st, self.str_of(m, st, v), 's', '', ty, ins)
            elif conv == 'c' and isinstance(v, Lin) and not v.t:
                self.text(m, st, chr(v.c & 255), ins)
            else:
                if I.is_cond(v):
                    v = m.int(st, v)
                self.shows(m, st, v, conv, mm.group(4) or '', ty, ins)
        self.text(m, st, fmt[i:], ins)
        return M.done(m, st, ins, L(fresh('?printed', 0, 1 << 20)))

    def str_of(self, m, st, p):
        if isinstance(p, I.Ptr) and p.obj is not None:
            return st.mem.get(p.obj, {}).get(('str', p.off), I.Unk('str'))
        return p

    def h_fputs(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        if self.to(m, st, A[1], ins):
            s = M.cstring(m, A[0])
            if s is None:
                raise I.Undecided('dump: text')
            self.text(m, st, s, ins)
        return M.done(m, st, ins, L(fresh('?printed', 0, 1)))

    def h_fputc(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        if self.to(m, st, A[1], ins):
            if not isinstance(A[0], Lin) or A[0].t:
                raise I.Undecided('dump: text')
            self.text(m, st, chr(A[0].c & 255), ins)
        return M.done(m, st, ins, A[0])

    def h_fwrite(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        if self.to(m, st, A[3], ins):
            s = M.cstring(m, A[0])
            if s is None or not all(isinstance(x, Lin) and not x.t for x in A[1:3]):
                raise I.Undecided('dump: text')
            self.text(m, st, s[:A[1].c * A[2].c], ins)
        return M.done(m, st, ins, A[2])

    def h_indent(self, o, m, st, ins, dem, args):
        self.text(m, st, '\n', ins)
        return M.done(m, st, ins)

    def h_same(self, o, m, st, ins, dem, args):
        return M.done(m, st, ins, self.vals(m, st, args)[0])

    def h_void(self, o, m, st, ins, dem, args):
        return M.done(m, st, ins)

    def h_str0(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        if isinstance(A[0], I.Ptr) and A[0].obj is not None:
            s = M.cstring(m, A[1]) if len(A) > 1 else ''
            st.wcells(A[0].obj)[('str', A[0].off)] = s if s is not None else I.Unk('str')
        return M.done(m, st, ins, A[0] if ins.res else None)

    def h_cstr(self, o, m, st, ins, dem, args):
        return M.done(m, st, ins, self.vals(m, st, args)[0])

    def h_totext(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        w = self.mem_sym(m, st, 'profile_type')
        ok = isinstance(A[0], Lin) and st.store.eq(A[0], w)
        st.wcells(A[1].obj)[('str', A[1].off)] = ('text', 'profile_type' if ok else repr(A[0]))
        return M.done(m, st, ins)

    def h_resolution(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        for p, k in zip(A[1:], ('width', 'height')):
            if isinstance(p, I.Ptr) and p.obj is not None:
                m.store_(st, p, L(sym('resolution.' + k, -(1 << 31), (1 << 31) - 1)), ('i', 32), ins) if hasattr(m, 'store_') else st.wcells(p.obj).__setitem__(p.off, L(sym('resolution.' + k, -(1 << 31), (1 << 31) - 1)))
        return M.done(m, st, ins, L(sym('resolution.rc', -1, 0)))

    def call(self, m, st, ins, name, dem, args):
        q = M.strip_templates(dem)
        if q.endswith('::fdump'):
            return self.nested(m, st, ins, q, dem, args)
        if name in self.handlers and q not in self.handlers:
            return self.handlers[name](self, m, st, ins, dem, args)
        return super().call(m, st, ins, name, dem, args)

    def nested(self, m, st, ins, q, dem, args):
        A = self.vals(m, st, args)
        p = A[0]
        if not isinstance(p, I.Ptr):
            raise I.Undecided('dump of %r' % (p,))
        self.deref(m, st, p, ins, 'call')
        if p.obj is None:
            return M.done(m, st, ins)
        nm = m.objinfo.get(p.obj, {}).get('sym') or ''
        x = nm.replace(self.pre, '', 1) if nm.startswith(self.pre) else None
        if q == N + 'NaluChecksum::fdump':
            ok = x == 'checksum'
            if isinstance(A[1], I.Ptr) and A[1].obj is not None:
                st.wcells(A[1].obj)[('str', A[1].off)] = ('text', 'checksum' if ok else nm)
            return M.done(m, st, ins)
        if x is None:
            raise I.Undecided('dump of %s' % nm)
        e = m.elemsym.get(nm)
        if e is not None:
            self.counted(m, st, e, ins)
        self.event(m, st, e[0].replace(self.pre, '') if e else x, ins)
        # what the nested dump is told
        pt = spec.param_types(dem)
        off = len(A) - len(pt)
        for v, t in zip(A[off:], pt):
            if 'ParsingOptions' in t:
                self.options(m, st, v, x, ins)
            elif t in ('unsigned int', 'uint32_t'):
                self.type_arg(m, st, v, x, ins)
            elif '_IO_FILE' in t or 'FILE' in t:
                if isinstance(v, I.Ptr) and v.obj != m.dump_out.obj:
                    self.fail(m, st, ('stream', x), 'the dump of %s goes to another stream' % x, ins)
        return M.done(m, st, ins)

    def counted(self, m, st, e, ins):
        """an element of a list of structures (or sizes) is shown: in order?"""
        k = ('cnt', e[0])
        n = st.mem.get(I.SPEC, {}).get(k, ZERO)
        if not st.store.eq(e[1], n):
            self.fail(m, st, ('order', e[0]), 'the dump shows element %r of %s in place %r' % (e[1], e[0].replace(self.pre, ''), n), ins)
        self.setpos(st, k, n.addc(1))

    def lists(self):
        if self.struct.endswith('BitstreamState'):
            return ['nal_units']
        if self.struct.endswith('RtpStapAState'):
            return ['nal_unit_sizes', 'nal_unit_headers', 'nal_unit_payloads']
        return []

    def options(self, m, st, v, x, ins):
        cells = dict(v.cells) if isinstance(v, I.Blob) else None
        if cells is None and isinstance(v, I.Ptr) and v.obj is not None:
            cells = {k - v.off: y for k, y in st.mem.get(v.obj, {}).items() if isinstance(k, int)}
        if cells is None:
            self.undecided.append('%s: options for %s: %r' % (self.name, x, v))
            return
        for o, sz, nm, td in m.prog.structs[N + 'ParsingOptions']:
            g = cells.get(o)
            if g is None or I.is_cond(g) and not isinstance(g, (bool, tuple)):
                self.undecided.append('%s: option %s for %s' % (self.name, nm, x))
            elif isinstance(g, Lin) and not st.store.eq(g, self.own_options(m, st, o)):
                self.fail(m, st, ('option', x, nm), 'the dump of %s gets another %s option' % (x, nm), ins)

    def own_options(self, m, st, o):
        if 'parsing_options_' in self.members:
            return m.load(st, m.dump_this.plus(self.members['parsing_options_'][0] + o), ('i', 8), None)
        return m.dump_opts[o]

    def type_arg(self, m, st, v, x, ins):
        t = TYPE_OF.get(self.struct)
        if self.struct.endswith('RtpStapAState'):
            e = m.elemsym.get(self.pre + x)
            if e is not None and isinstance(v, Lin) and len(v.t) == 1:
                g = m.elemsym.get(Sym.table[v.t[0][0]].name.rsplit('.', 1)[0])
                if g is None or g[0] != self.pre + 'nal_unit_headers' or not st.store.eq(g[1], e[1]) or not Sym.table[v.t[0][0]].name.endswith('.nal_unit_type'):
                    self.fail(m, st, ('type', e[0]), 'the dump of an aggregated unit is told type %r' % (v,), ins)
            else:
                self.undecided.append('%s: type for %s' % (self.name, x))
        if t is not None:
            try:
                w = self.mem_sym(m, st, t)
            except Unknown:
                return
            if not isinstance(v, Lin):
                self.undecided.append('%s: type for %s' % (self.name, x))
            elif not st.store.eq(v, w):
                self.fail(m, st, ('type', x), 'the dump of %s is told type %r instead of %s' % (x, v, t), ins)


def control(fn):
    """block -> blocks whose branch decides whether it runs (transitively)"""
    fn.parse()
    blocks = list(fn.order)
    ix = {b: i for i, b in enumerate(blocks)}
    succ = {b: fn.succs(b) for b in blocks}
    full = (1 << len(blocks)) - 1
    pd = {b: full for b in blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(blocks):
            s = succ[b]
            n = full
            for x in s:
                n &= pd[x]
            if not s:
                n = 0
            n |= 1 << ix[b]
            if n != pd[b]:
                pd[b] = n
                ch = True
    direct = {b: set() for b in blocks}
    for b in blocks:
        if len(succ[b]) < 2:
            continue
        for x in blocks:
            k = 1 << ix[x]
            if any(pd[s] & k for s in succ[b]) and (x == b or not pd[b] & k):
                direct[x].add(b)
    out = {}
    for b in blocks:
        seen, work = set(), [b]
        while work:
            for d in direct[work.pop()]:
                if d not in seen:
                    seen.add(d)
                    work.append(d)
        out[b] = seen
    return out


class Dumps(Checks):
    def __init__(self, prog):
        super().__init__(prog)
        self.lib = spec.Library(prog)
        specs.build(self.lib)
        self._cd = {}
        self.fns = {}         # name -> function (static ones included)

    def copied(self, struct):
        """ranges of members taken over from other structures"""
        sp = self.lib.bystruct.get(struct)
        out = {}
        if sp is None:
            return out
        read = Presence(sp).kind
        for s in ast.walk(ast.parse(textwrap.dedent(sp.src))):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Attribute):
                r = [(x.vars[s.value.attr]['lo'], x.vars[s.value.attr]['hi']) for x in self.lib.specs.values()
                     if s.value.attr in x.vars and x.vars[s.value.attr]['kind'] == 'scalar' and not x.vars[s.value.attr].get('copied')]
                n = s.targets[0].id
                if r and n not in read:
                    out[n] = (min([0] + [a for a, b in r]), max([0] + [b for a, b in r]))
        return out

    def relevant(self, sites):
        out = set()
        for site in sites:
            for fn, b in site:
                if fn not in self._cd:
                    self._cd[fn] = control(self.fns[fn])
                for d in self._cd[fn][b]:
                    out.add((fn, d))
        return out

    def once(self, fn, struct, label=None, relevant=()):
        o = DumpObs(self, struct, label, relevant)
        r = Run(self.prog, fn, o, machine=DumpMachine)
        m = r.m
        m.elemsym = {}
        m.dump_opts = {}
        m.assumed_ranges = dict(m.assumed_ranges)
        m.assumed_ranges[o.pre + 'nal_unit_sizes.size'] = (0, 1 << 30)     # a packet has fewer bytes
        for x in o.lists():
            m.known_size[o.pre + x] = o.pre + o.lists()[0]     # one entry each per unit
        for x, k in o.pres.inner.items():
            m.known_size[o.pre + x] = k
        oid = ('s', 'this')
        m.objinfo[oid] = {'kind': 'sym', 'sym': struct.split('::')[-1], 'struct': struct, 'trusted': True}
        r.st.mem[oid] = {}
        r.st.own.add(oid)
        r.st.mem[I.SPEC] = {}
        r.st.own.add(I.SPEC)
        m.dump_this = I.Ptr(oid)
        m.dump_out = r.cell('outfp')
        args = [m.dump_this]
        for (ty, n, at), t in zip(r.params[1:], r.ptys):
            if 'FILE' in t:
                args.append(m.dump_out)
            elif 'ParsingOptions' in t:
                b = spec.blob_arg(m, r.st, N + 'ParsingOptions', 'parsing_options')
                m.dump_opts = dict(b.cells)
                if ty[0] == 'ptr':
                    p = r.obj('popts', N + 'ParsingOptions', dict(b.cells))
                    args.append(p)
                else:
                    args.append(b)
            elif ty[0] == 'i':
                args.append(L(sym('arg.' + n, 0, (1 << 31) - 1)))
                if t in ('unsigned int', 'uint32_t'):
                    m.dump_type = args[-1]
            else:
                raise Anchor('%s: parameter %s' % (fn.name, t))
        return r.go(*args)

    def structure(self, fn, struct):
        o = self.once(fn, struct)
        out = [o]
        sp = self.lib.bystruct.get(struct)
        done = set()
        for label in sorted(set(o.events) | set(o.pres.alts) | (set(PAYLOAD.values()) if struct.endswith('NalUnitPayloadState') else set())):
            if not o.known(label) or label not in o.members:
                continue
            if label not in o.events:
                # never shown
                o.missing = getattr(o, 'missing', []) + [label]
                rel = set()
            else:
                rel = self.relevant(o.events[label])
            loops = False
            for f, b in rel:
                fi = o.m.info(self.fns[f])
                if any(b in body for body in fi.loop_body.values()):
                    loops = True
            if loops:
                continue
            out.append(self.once(fn, struct, label, rel))
        return out


def run(prog, tier='quick'):
    c = Dumps(prog)
    for n, d in sorted(prog.demangled.items()):
        q = M.strip_templates(d)
        if n in prog.fn and q.startswith(N) and q.endswith('::fdump') and 'FILE' in d:
            struct = q[:-7]
            c.do('fdump ' + '::'.join(struct.split('::')[-1:]), lambda: c.structure(prog.fn[n], struct))
    return c


if __name__ == '__main__':
    main(run)
