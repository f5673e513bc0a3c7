"""The count of unimplemented structures: zero at the start and after a reset,
one more after each report, and what get_unimplemented_count() returns."""
import interp as I
import models as M
from contract import *
from dom import *

N = 'h264nal::'


class Step(Obs):
    def __init__(self, name):
        super().__init__(name, self.keep)
        self.ends = []

    def keep(self, o, m, st, v, ins):
        if I.is_cond(v):
            v = m.int(st, v)
        self.ends.append((v, {k: dict(c) for k, c in st.mem.items() if k[0] == 'g'}, st.aux.get('_imprecise', 0), st, ins))


class Count(Checks):
    def step(self, fn, mem):
        """one call from the given contents of the global variables"""
        f = find(self.prog, N + fn)
        o = Step(fn)
        r = Run(self.prog, f, o)
        for k, c in mem.items():
            r.m.global_ptr_of(f.mod, k[2])
            r.st.mem[k] = dict(c)
            r.st.own.add(k)
        args = []
        for ty, n, at in r.params:
            args.append(r.raw('text%d' % len(args), L(sym('textlen', 1, 1 << 20))))
        r.go(*args)
        if len(o.ends) != 1 or o.ends[0][2]:
            raise I.Undecided('%s: %d ends' % (fn, len(o.ends)))
        return o

    def initial(self):
        f = find(self.prog, N + 'get_unimplemented_count')
        o = Step('initial')
        r = Run(self.prog, f, o)
        mem = {}
        for g, d in f.mod.globals.items():
            if ' global ' in ' ' + d and 'external' not in d.split('global')[0]:
                p = r.m.global_ptr_of(f.mod, g)
                v = M.parse_global(r.m.objinfo[p.obj])
                if v:
                    c = {}
                    M.fill_from_const(r.m, r.st, c, 0, v[0], v[1], f.mod)
                    mem[p.obj] = c
        return mem

    def after(self, calls, mem):
        o = None
        for c in calls:
            o = self.step(c, mem)
            mem = dict(mem)
            mem.update(o.ends[-1][1])
        return o, mem

    def value(self, what, calls, want, mem):
        """get_unimplemented_count() after the calls"""
        _, mem = self.after(calls, mem)
        o = self.step('get_unimplemented_count', mem)
        v, _, _, st, ins = o.ends[0]
        if not isinstance(v, Lin):
            raise I.Undecided('count %r' % (v,))
        if any(I.SOFT.match(Sym.table[i].name) for i in bases_of(v)):
            raise I.Undecided('count %r not known' % (v,))
        if not st.store.eq(v, want):
            o.fail(o.m, st, (what,), 'get_unimplemented_count() is %r %s; it should be %r' % (v, what, want), ins)
        return o

    def symbolic(self, mem0):
        """from any count"""
        _, mem = self.after(['report_unimplemented'], mem0)
        ch = [(k, off) for k in mem for off in mem[k] if mem[k][off] != mem0.get(k, {}).get(off)]
        if len(ch) != 1:
            raise I.Undecided('count: %d variables' % len(ch))
        (k, off), c = ch[0], L(sym('count', 0, (1 << 32) - 2))
        mem = {q: dict(x) for q, x in mem.items()}
        mem[k][off] = c
        return [self.value('after a report at count', ['report_unimplemented'], c.addc(1), mem),
                self.value('after a reset at count', ['reset_unimplemented_count'], ZERO, mem),
                self.value('at count', ['get_unimplemented_count'], c, mem)]


def run(prog, tier='quick'):
    c = Count(prog)
    R, Z = 'report_unimplemented', 'reset_unimplemented_count'
    try:
        mem = c.initial()
    except Anchor as e:
        c.missing.append(str(e))
        return c
    L_ = 'unimplemented count'
    c.do(L_, lambda: c.value('at the start', [], ZERO, mem))
    c.do(L_, lambda: c.value('after one report', [R], ONE, mem))
    c.do(L_, lambda: c.value('after three reports', [R, R, R], Lin(3), mem))
    c.do(L_, lambda: c.value('after a report and a reset', [R, Z], ZERO, mem))
    c.do(L_, lambda: c.value('after a reset and a report', [R, R, Z, R], ONE, mem))
    c.do(L_, lambda: c.symbolic(mem))
    return c


if __name__ == '__main__':
    main(run)
