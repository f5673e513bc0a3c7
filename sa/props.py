"""Which analyses and which finding categories decide which property."""
import traceback

import interp as I
import spec
import specs


class Result:
    def __init__(self):
        self.findings, self.undecided, self.cover, self.vacuous = [], [], {}, []


class Context:
    def __init__(self, prog, config, tier):
        self.prog, self.config, self.tier = prog, config, tier
        self.cache = {}

    def lib(self):
        if 'lib' not in self.cache:
            lib = spec.Library(self.prog)
            specs.build(lib)
            self.cache['lib'] = lib
        return self.cache['lib']

    def run(self, sp):
        """analyse one parse function against its syntax specification"""
        if sp.fn not in self.cache:
            try:
                got = spec.run_spec(self.prog, self.lib(), sp)
                o = got[1]
                if (o.broken or o.undecided or o.violations) and not any(not v['imprecise'] for v in o.violations):
                    # no verdict: look at the first iterations of every loop alone
                    m2, o2 = spec.run_spec(self.prog, self.lib(), sp, peel=3)
                    o.violations += [v for v in o2.violations if not v['imprecise']]
                if o.broken:
                    e = o.broken
                    o.undecided.append('%s: %s' % (type(e).__name__, str(e)[:200] + ' @ ' + o.trace.strip().split('\n')[-3].strip()))
                self.cache[sp.fn] = got
            except spec.NoAnchor as e:
                self.cache[sp.fn] = ('anchor', str(e))
            except Exception as e:       # engine limit: no verdict, never an alarm
                self.cache[sp.fn] = ('engine', '%s: %s' % (type(e).__name__, str(e)[:200] + ' @ ' + traceback.format_exc().strip().split('\n')[-3].strip()))
        return self.cache[sp.fn]


def specs_analysis(cats, select=lambda sp: True, count=()):
    """findings of the given categories from the lock-step analysis"""
    def run(ctx):
        r = Result()
        lib = ctx.lib()
        fns, tot = [], {}
        for q, sp in lib.specs.items():
            if not select(sp) or sp.opts.get('kind') == 'extern':
                continue
            got = ctx.run(sp)
            short = '::'.join(q.split('::')[-2:])
            if got[0] == 'anchor':
                if sp.opts.get('kind') is None:
                    r.vacuous.append('no definition of ' + q)
                else:
                    r.undecided.append('no definition of ' + q)
                continue
            if got[0] == 'engine':
                r.undecided.append('%s: %s' % (short, got[1]))
                continue
            m, o = got
            fns.append(short)
            for k, v in o.stats.items():
                tot[k] = tot.get(k, 0) + v
            tot['abstract_steps'] = tot.get('abstract_steps', 0) + m.steps
            for u in o.undecided:
                r.undecided.append('%s: %s' % (short, u))
            for v in o.violations:
                if v['cat'] not in cats:
                    continue
                if v['imprecise']:
                    r.undecided.append('%s: [%s] %s at %s:%s (imprecise path)' % (short, v['cat'], v['msg'], v['file'].split('/')[-1], v['line']))
                    continue
                r.findings.append({'rule': v['cat'], 'where': short, 'key': repr(v['key']), 'msg': v['msg'], 'file': v['file'], 'line': v['line'], 'fn': v['fn']})
        r.cover = dict(tot)
        r.cover['functions'] = fns
        return r
    return run


def contract_analysis(modname, cats, configs=(), labels=None):
    """findings of a contract module: module.run(prog, tier) -> Check with
    .runs [(label, Obs)], .undecided, .missing"""
    def run(ctx):
        import importlib
        mod = importlib.import_module(modname)
        r = Result()
        names, tot = [], {}
        progs = [('', ctx.prog)]
        if ctx.config == 'default':
            for cn, extra in configs:
                k = ('prog', cn)
                if k not in ctx.cache:
                    import ir
                    ctx.cache[k] = ir.load_program(extra=extra)
                progs.append((' [%s]' % cn, ctx.cache[k]))
        for cn, prog in progs:
            key = (modname, cn)
            if key not in ctx.cache:
                try:
                    ctx.cache[key] = mod.run(prog, ctx.tier)
                except Exception as e:
                    ctx.cache[key] = '%s: %s @ %s' % (type(e).__name__, str(e)[:200], traceback.format_exc().strip().split('\n')[-3].strip())
            c = ctx.cache[key]
            if isinstance(c, str):
                r.undecided.append(modname + cn + ': ' + c)
                continue
            for u in c.undecided + c.missing:
                r.undecided.append(u + cn)
            for label, o in c.runs:
                if labels is not None and not labels(label):
                    continue
                if label not in names:
                    names.append(label)
                tot['abstract_runs'] = tot.get('abstract_runs', 0) + 1
                for k, v in o.stats.items():
                    tot[k] = tot.get(k, 0) + v
                tot['abstract_steps'] = tot.get('abstract_steps', 0) + (o.m.steps if getattr(o, 'm', None) is not None else 0)
                for u in o.undecided:
                    r.undecided.append('%s%s: %s' % (label, cn, u))
                for v in o.violations:
                    if v['cat'] not in cats:
                        continue
                    if v['imprecise']:
                        r.undecided.append('%s: [%s] %s at %s:%s (imprecise path)' % (label, v['cat'], v['msg'], v['file'].split('/')[-1], v['line']))
                        continue
                    r.findings.append({'rule': v['cat'], 'where': label, 'key': repr(v['key']), 'msg': v['msg'] + cn, 'file': v['file'], 'line': v['line'], 'fn': v['fn']})
        r.undecided = sorted(set(r.undecided))
        r.cover = dict(tot)
        r.cover['functions'] = names
        return r
    return run


PARAM_SETS = ('Hrd', 'Vui', 'Sps', 'Pps', 'scaling_list', 'GetProfileType')


def is_param(sp):
    return any(x in sp.fn.split('::', 1)[-1] for x in PARAM_SETS)


def not_param(sp):
    return not is_param(sp) and not sp.opts.get('group')


def group(g):
    return lambda sp: sp.opts.get('group') == g


THOROUGH_CONFIGS = [('no-stderr-diagnostics', ('-UFPRINT_ERRORS',)), ('NDEBUG', ('-DNDEBUG',))]

ASSUMPTIONS = [
    'clang 18 lowers /repo to LLVM IR faithfully (the project itself is built with g++ from the same sources)',
    'models of the libstdc++ containers and of <math.h> used by the parsers (sa/models.py)',
    'the bit reader follows its contract inside parser analyses; that contract is checked on its own',
    'malloc does not fail',
]

EXPL = ('Abstract interpretation of the LLVM IR of each parse function over all paths, in lock step with a transcription of the '
        'syntax table of the standard; values are linear expressions over symbolic inputs with interval and difference facts, loops run to a fixpoint. ')

PROPS = {}


def prop(pid, analyses, rules, explain):
    PROPS[pid] = {'analyses': analyses, 'rules': rules, 'explain': explain}


prop('C01', [specs_analysis({'SYNTAX', 'STORE'}, is_param)], ['SYNTAX', 'STORE'],
     EXPL + 'Every read must match the next syntax element in descriptor, width and presence condition; at every successful return each state field must equal the value of its element.')
prop('C02', [specs_analysis({'SYNTAX', 'STORE'}, not_param)], ['SYNTAX', 'STORE'],
     EXPL + 'Every read must match the next syntax element in descriptor, width and presence condition; at every successful return each state field must equal the value of its element.')
prop('C03', [specs_analysis({'RANGE', 'REQUIRE'})], ['RANGE', 'REQUIRE'],
     EXPL + 'No path returns a structure while an element is outside the range its semantics allow.')
prop('C04', [specs_analysis({'OVERREJECT'})], ['OVERREJECT'],
     EXPL + 'No path returns failure while every element read so far is legal and present.')
prop('C05', [specs_analysis({'FAIL'})], ['FAIL'],
     EXPL + 'No path returns a structure after a read or a nested structure failed.')
prop('C06', [specs_analysis({'DEREF', 'INDEX'})], ['DEREF', 'INDEX'],
     EXPL + 'Every dereference is of a pointer shown non-null, every element access is shown below the length.')
prop('C07', [specs_analysis({'ARITH', 'ABORT'})], ['ARITH', 'ABORT'],
     EXPL + 'No signed overflow, out-of-range shift, division by zero or abort on any path.')
prop('C08', [specs_analysis({'UNIMPL'}), contract_analysis('count', {'POST'})], ['UNIMPL', 'POST'],
     EXPL + 'Where the syntax needs a structure the library does not implement, the path reports it and fails; the count of reports is one more after each and zero after a reset.')


CEXPL = ('Abstract interpretation of the LLVM IR of each function from a symbolic entry state that stands for every buffer and position, with an obligation at every return and memory access. ')
ALL = {'POST', 'BOUND', 'DEREF', 'INDEX', 'ARITH', 'ABORT'}
NDEBUG = [('NDEBUG', ('-DNDEBUG',))]

prop('C09', [contract_analysis('bitreader', ALL, NDEBUG), contract_analysis('writer', ALL, NDEBUG, lambda l: l == 'ReadNonSymmetric')], sorted(ALL),
     CEXPL + 'Reads are decided bit by bit (each result bit is one named input bit) for every bit offset and width; positions are linear expressions; Exp-Golomb is decided through the contract of the plain reads with an affine loop summary.')

prop('C10', [specs_analysis({'SYNTAX', 'STORE', 'FAIL', 'OVERREJECT', 'REQUIRE', 'RANGE', 'DEREF', 'INDEX', 'ARITH', 'ABORT'}, lambda sp: sp.opts.get('group') in ('unit', 'dispatch')),
             contract_analysis('dispatch', ALL)], ['SYNTAX', 'STORE', 'FAIL', 'OVERREJECT', 'DEREF', 'POST'],
     EXPL + 'The payload dispatch is compared with the table of NAL unit types; the parameter-set maps of the parser state may change only as the table says.')

prop('C11', [specs_analysis({'SYNTAX', 'STORE', 'FAIL', 'OVERREJECT', 'REQUIRE', 'RANGE', 'DEREF', 'INDEX', 'ARITH', 'ABORT'}, group('rtp')),
             contract_analysis('rtp', {'ADVANCE'})], ['SYNTAX', 'STORE', 'FAIL', 'OVERREJECT', 'REQUIRE', 'DEREF', 'INDEX', 'ADVANCE'],
     EXPL + 'RTP packet kinds are compared with RFC 6184; unit boundaries in aggregation packets are decided on the call graph.')

prop('C12', [contract_analysis('scan', ALL, (), lambda l: l == 'UnescapeRbsp'), contract_analysis('wrappers', ALL)], ['POST', 'BOUND'],
     CEXPL + 'The unescaping loop is decided with a finite window abstraction (cells relative to a ghost input position, classes of the bytes around it, distance to the end); '
     'every entry point that takes bytes must unescape them once and parse exactly the result.')

prop('C13', [contract_analysis('scan', ALL, (), lambda l: l != 'UnescapeRbsp')], ['POST', 'BOUND'],
     CEXPL + 'Framing loops are decided with a finite window abstraction over the byte buffer.')

prop('C14', [contract_analysis('derived', ALL)], ['POST', 'DEREF', 'ARITH'],
     CEXPL + 'Each function is compared with the table or equation of the standard, per combination of the selecting fields, with all other fields symbolic.')

prop('C15', [contract_analysis('dump', ALL)], sorted({'POST', 'DEREF', 'INDEX'}),
     CEXPL + 'Each fdump() runs from the structure its parser returns; the text it writes is followed character by character through a small machine (open groups, pending label, list positions), '
     'and each value shown is matched with the member its label names; whether an element is shown is compared with its presence condition in the syntax.')

prop('C16', [specs_analysis({'EFFECT'}), contract_analysis('effects', {'STATE', 'OUTSIDE', 'CONST'})], ['EFFECT', 'STATE', 'OUTSIDE', 'CONST'],
     'Effect analysis of the LLVM IR of the whole library: mutable static storage, calls that bring in anything but the arguments (over the call graph), writes through pointers to const (flow-insensitive, per function); '
     'and, in the lock-step abstract interpretation of the parsers, an obligation at every store that it goes to an object the parser made.')

prop('C17', [specs_analysis({'PROGRESS', 'ALLOC'})] + [contract_analysis(x, {'PROGRESS', 'ALLOC'}) for x in ('bitreader', 'scan', 'wrappers', 'derived', 'dump')], ['PROGRESS', 'ALLOC'],
     EXPL + 'At every back edge: if no read succeeded in the iteration, some cell that reaches an exit test must differ from the start of the iteration, and a counter that moves without reads must stay below 2^20; '
     'in the framing and reader analyses the position itself must move. Every reserve, resize or sized construction must be bounded by a constant or by the input size.')

prop('C18', [contract_analysis('cli', ALL), contract_analysis('count', {'POST'})], sorted({'POST', 'DEREF', 'INDEX', 'ABORT'}),
     'Abstract interpretation of the LLVM IR of main() and ReadFile(), one run per option and pair of opposite options; everything the library and the file functions return is symbolic, lists have up to three units. '
     'At every end the status is compared with what the symbolic outcomes call for, and the text written with the units in order.')

prop('C19', [contract_analysis('writer', ALL, NDEBUG, lambda l: l != 'ReadNonSymmetric')], sorted(ALL),
     CEXPL + 'Plain writes are decided bit by bit for every bit offset and width (each bit of the buffer afterwards is one named bit of the value or the bit that was there); the codes are decided through the contract of the plain write, with the value symbolic in each length class.')
