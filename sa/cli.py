"""The command-line tool: main() of tools/h264nal.cc for every option (and
pairs of opposite options), with everything the library returns symbolic:
which units parsed, their types, the count of unsupported structures, how many
units were dropped.  Lists have zero to three units.  Also H264Utils::ReadFile().

What is observed is what reaches the outside: the exit status, the library
calls with their arguments, and the text written to the output."""
import re

import interp as I
import models as M
import ir
from contract import *
from dom import *
from dump import CONV

N = 'h264nal::'
BP = N + 'H264BitstreamParser::'
NALU = N + 'H264NalUnitParser::NalUnitState'
BS = BP + 'BitstreamState'
HDR = N + 'H264NalUnitHeaderParser::NalUnitHeaderState'
PAY = N + 'H264NalUnitPayloadParser::NalUnitPayloadState'
SL = N + 'H264SliceLayerWithoutPartitioningRbspParser::SliceLayerWithoutPartitioningRbspState'
SH = N + 'H264SliceHeaderParser::SliceHeaderState'
OPTS = N + 'ParsingOptions'
UNITS = (('cli-units',),)
BYTES = (('cli-bytes',),)
LENGTHS = (3, 18, 5)
BIG = (70000, 250000000, 3)           # for the columns of --dump-length
FLAGS = ('as-one-line', 'add-offset', 'add-length', 'add-parsed-length', 'add-checksum', 'add-resolution', 'add-contents')


# C functions without an effect on files or the process
QUIET = {'memcpy', 'memset', 'memmove', 'memcmp', 'fflush', 'malloc', 'free', 'abort', '_Exit', '__assert_fail', '__cxa_begin_catch', '__cxa_guard_acquire', '__cxa_guard_release', '__gxx_personality_v0', 'isdigit'}


def member(prog, struct, name):
    for o, sz, nm, td in prog.structs.get(struct, []):
        if nm == name:
            return o
    raise Anchor('no member %s in %s' % (name, struct))


class Unroll(I.Machine):
    """loops are followed as they are"""

    def loop_arrive(self, st, fi, block):
        k = ('_n', len(st.frames), st.top.fn.name, block)
        n = st.aux.get(k, 0)
        if n > 300:
            raise I.Undecided('loop in %s' % st.top.fn.name)
        st.aux[k] = n + 1
        return st


def words(ev):
    """(text | value)* -> the words of the text, whitespace left out"""
    out, glue = [], False
    for e in ev:
        if isinstance(e, str):
            for x in re.findall(r'\n|[^\s]+', e):
                out.append(x)
        else:
            out.append(e)
    return out


class Cli(Obs):
    def __init__(self, prog, name, argv, k, lengths=LENGTHS):
        self.lengths = lengths
        super().__init__(name)
        self.prog, self.argv, self.k = prog, argv, k
        self.post = self.main_post
        d = dict(argv)
        self.size = L(sym('file.size', 1, 1 << 40))
        self.dropped = L(sym('dropped units', 0, 1 << 20))
        self.unimpl = L(sym('unimplemented_count', 0, (1 << 32) - 1))
        self.off = {q: member(prog, s, q) for s, q in ((NALU, 'offset'), (NALU, 'length'), (NALU, 'nal_unit_header'), (NALU, 'nal_unit_payload'), (BS, 'nal_units'),
                                                        (HDR, 'nal_unit_type'), (PAY, 'slice_layer_without_partitioning_rbsp'), (SL, 'slice_header'), (SH, 'first_mb_in_slice'))}
        self.optnames = {x[2]: x[0] for x in prog.structs.get(OPTS, [])}
        self.expect()
        H = self.handlers
        for q in ('getopt_long', 'strtol', 'strlen', '__errno_location', 'exit', 'fopen', 'fclose', 'fprintf', 'fputs', 'fputc', 'putc', 'printf', 'puts', 'putchar', 'strcmp', 'strncmp', 'fwrite'):
            H[q] = getattr(self, 'h_' + q)
        H[N + 'H264Utils::ReadFile'] = self.h_read
        H[BP + 'ParseBitstream'] = self.h_parse
        H[BP + 'ParseBitstreamNALULength'] = self.h_parse
        H[BP + 'FindNaluIndices'] = self.h_indices
        H[NALU + '::fdump'] = self.h_dump
        H[PAY + '::IsPayloadParsed'] = self.h_parsed
        H[N + 'get_unimplemented_count'] = self.h_count
        H[N + 'reset_unimplemented_count'] = self.h_reset
        H[N + 'IsSliceSegment'] = self.h_slice
        H[N + 'NalUnitTypeToString'] = self.h_typestr
        for q in ('__isoc23_strtol', 'strtoll', '__isoc23_strtoll', 'atoi', 'atol'):
            H[q] = self.h_strtol
        H['std::to_string'] = H['std::__cxx11::to_string'] = self.h_tostring

    # ---- what the options ask for
    def expect(self):
        f = {x: x == 'as-one-line' for x in FLAGS}
        self.mode, self.nb, self.fps, self.out, self.infile, self.avcc = 'all', -1, 30, None, None, None
        self.bail = None
        for n, a in self.argv:
            n = {'-i': 'infile', '-o': 'outfile', '-h': 'help', '-d': 'debug'}.get(n, n)
            if n in f:
                f[n] = True
            elif n.startswith('no-'):
                f[n[3:]] = False
            elif n in ('dump-all', 'dump-length'):
                self.mode = n[5:]
            elif n == 'infile':
                self.infile = a
            elif n == 'outfile':
                self.out = a
            elif n == 'avcc-file':
                self.avcc = a
            elif n in ('nalu-length-bytes', 'frames-per-second'):
                if not a.isdigit() or int(a) >= 1 << 31:
                    self.bail = self.bail or 'fail'
                elif n[0] == 'n':
                    self.nb = int(a)
                else:
                    self.fps = int(a)
            elif n == 'version':
                self.bail = self.bail or 'ok'
            elif n in ('help', '?'):
                self.bail = self.bail or 'any'
        if self.infile is None and self.avcc is None:
            self.bail = self.bail or 'fail'
        if f['add-contents']:
            f['add-offset'] = f['add-length'] = True
        if self.mode == 'length':
            f['add-length'] = True
        self.flags = f
        self.opts = {o: (1 if f.get(n.replace('_', '-')) else 0) for n, o in self.optnames.items()}
        self.known = {o for n, o in self.optnames.items() if n.replace('_', '-') in f}
        self.outfp = 'stdout' if self.out in (None, '-') else 'outfile'

    # ---- values
    def vals(self, m, st, args):
        return [m.val(st, x, t) for t, x, _ in args]

    def unit(self, m, p):
        """which unit an object belongs to"""
        if isinstance(p, I.Ptr) and p.obj is not None and p.obj[0] == 's' and isinstance(p.obj[1], str):
            g = re.match(r'unit(\d)', p.obj[1])
            if g:
                return int(g.group(1)), p.obj[1][5:]
        return None, None

    def arg(self, m, text):
        oid = ('g', 'cli', 'arg:' + text)
        if oid not in m.objinfo:
            m.objinfo[oid] = {'kind': 'global', 'name': 'arg:' + text, 'mod': self.mod, 'def': None, 'parsed': (('arr', len(text) + 1, ('i', 8)), ('str', 'c"%s\\00"' % text), True)}
        return I.Ptr(oid)

    def typ(self, i):
        return L(sym('unit%d.nal_unit_type' % i, 0, 31))

    def elem_read(self, m, st, v, vp, p, ty, ins):
        if v.items == UNITS:
            c = st.store.const(p.idx)
            if c is None or c >= self.k or p.off:
                raise I.Undecided('unit %r' % (p.idx,))
            return I.Ptr(('s', 'unit%d' % c))
        if v.items == BYTES:
            return L(sym('file(%r)' % p.idx.addc(p.off), 0, 255))
        return super().elem_read(m, st, v, vp, p, ty, ins)

    # ---- libc
    def h_getopt_long(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        tab = self.options(m, st, A, ins)
        i = st.aux.get('argi', 0)
        st.aux['argi'] = i + 1
        if i >= len(self.argv):
            return M.done(m, st, ins, Lin(0xffffffff))
        n, a = self.argv[i]
        if n == '?':
            return M.done(m, st, ins, Lin(ord('?')))
        if n not in tab:
            self.fail(m, st, ('option', n), 'the option --%s is not recognised' % n, ins)
            return 'stop'
        has, val = tab[n]
        if has != (a is not None):
            self.fail(m, st, ('option-arg', n), 'the option --%s %s' % (n, 'takes an argument' if has else 'does not take its argument'), ins)
            return 'stop'
        self.global_cell(m, st, 'optarg', self.arg(m, a) if a is not None else I.NULL)
        return M.done(m, st, ins, Lin(val & 0xffffffff))

    def global_cell(self, m, st, name, v):
        oid = ('g', '', name)
        m.objinfo.setdefault(oid, {'kind': 'global', 'name': name, 'mod': self.mod, 'def': self.mod.globals.get(name)})
        st.wcells(oid)[0] = v

    def options(self, m, st, A, ins):
        short = M.cstring(m, A[2])
        if short is None or not isinstance(A[3], I.Ptr):
            raise I.Undecided('getopt_long')
        info = m.objinfo.get(A[3].obj, {})
        cells = dict(st.mem.get(A[3].obj, {}))
        if info.get('kind') == 'global':
            g = M.parse_global(info)
            if not g:
                raise I.Undecided('option table')
            c = {}
            M.fill_from_const(m, st, c, 0, g[0], g[1], info['mod'])
            c.update(cells)
            cells = c
        tab = {}
        i = A[3].off
        while i in cells:
            s = M.cstring(m, cells[i])
            if s is None:
                break
            if not (isinstance(cells.get(i + 16), I.Ptr) and cells[i + 16].obj is None):
                raise I.Undecided('option table: flag')
            tab.setdefault(s, (cells[i + 8].c == 1, cells[i + 24].c))
            i += 32
        if not tab:
            raise I.Undecided('option table')
        for x in re.finditer(r'(\w)(:?)', short):
            tab['-' + x.group(1)] = (x.group(2) == ':', ord(x.group(1)))
        self.tab = tab
        return tab

    def h_strtol(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        s = M.cstring(m, A[0])
        if s is None or len(A) > 2 and A[2] not in (Lin(10), Lin(0)):
            raise I.Undecided('strtol')
        g = re.match(r'\s*[-+]?\d+', s)
        v = int(g.group(0)) if g else 0
        if len(A) > 1:
            if isinstance(A[1], I.Ptr) and A[1].obj is not None:
                m.storev(st, A[1], A[0].plus(g.end() if g else 0), ins)
            if v > (1 << 63) - 1:
                self.h___errno_location(o, m, st, ins, dem, args)
                st.wcells(('c', 'errno'))[0] = Lin(34)
                v = (1 << 63) - 1
        elif v > (1 << 31) - 1:
            raise I.Undecided('atoi')
        return M.done(m, st, ins, Lin(v))

    def h_strlen(self, o, m, st, ins, dem, args):
        s = M.cstring(m, self.vals(m, st, args)[0])
        if s is None:
            raise I.Undecided('strlen')
        return M.done(m, st, ins, Lin(len(s)))

    def h_strcmp(self, o, m, st, ins, dem, args):
        s = [M.cstring(m, x) for x in self.vals(m, st, args)]
        if None in s:
            raise I.Undecided('strcmp')
        return M.done(m, st, ins, Lin(0 if s[0] == s[1] else 1 if s[0] > s[1] else 0xffffffff))

    def h_strncmp(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        s = [M.cstring(m, x) for x in A[:2]]
        n = st.store.const(A[2]) if isinstance(A[2], Lin) else None
        if None in s or n is None:
            raise I.Undecided('strncmp')
        s = [x[:n] for x in s]
        return M.done(m, st, ins, Lin(0 if s[0] == s[1] else 1 if s[0] > s[1] else 0xffffffff))

    def h___errno_location(self, o, m, st, ins, dem, args):
        oid = ('c', 'errno')
        m.objinfo.setdefault(oid, {'kind': 'cell', 'name': 'errno'})
        if oid not in st.mem:
            st.mem[oid] = {0: ZERO}
            st.own.add(oid)
        return M.done(m, st, ins, I.Ptr(oid))

    def h_exit(self, o, m, st, ins, dem, args):
        self.outcome(m, st, self.vals(m, st, args)[0], ins, True)
        return 'stop'

    def h_fopen(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        s, mode = M.cstring(m, A[0]), M.cstring(m, A[1])
        if s is None:
            raise I.Undecided('fopen')
        if s != self.out or self.outfp == 'stdout' or not mode or mode[0] != 'w':
            self.fail(m, st, ('open',), 'opens "%s" (%s); the output was to go to %s' % (s, mode, self.out or 'stdout'), ins)
            return 'stop'
        out = []
        for ok in (True, False):
            n = st.copy()
            n.aux['opened'] = ok
            if ins.res is not None:
                n.top.regs[ins.res] = I.Ptr(('s', 'outfile')) if ok else I.NULL
            n.top.idx += 1
            out.append(n)
        return out

    def h_fclose(self, o, m, st, ins, dem, args):
        p = self.vals(m, st, args)[0]
        if isinstance(p, I.Ptr) and p.obj == ('s', 'outfile'):
            st.aux['closed'] = 1
        return M.done(m, st, ins, ZERO)

    # ---- output
    def put(self, m, st, fp, ev, ins):
        if not isinstance(fp, I.Ptr) or fp.obj is None or fp.obj[0] != 's':
            raise I.Undecided('output to %r' % (fp,))
        if fp.obj[1] == 'stderr':
            return
        if st.aux.get('closed') and fp.obj[1] == 'outfile':
            self.fail(m, st, ('closed',), 'writes to the output after closing it', ins)
        st.aux['out'] = st.aux.get('out', ()) + tuple((fp.obj[1], e) for e in ev)

    def format(self, m, st, A, args, k):
        fmt = M.cstring(m, A[k])
        if fmt is None:
            raise I.Undecided('format')
        i, k = 0, k + 1
        ev = []
        for mm in CONV.finditer(fmt):
            ev.append(fmt[i:mm.start()])
            i = mm.end()
            c = mm.group(5)
            if c == '%':
                ev.append('%')
                continue
            v = A[k]
            k += 1
            if c == 's':
                s = M.cstring(m, v) if isinstance(v, I.Ptr) else None
                if s is None and isinstance(v, I.Ptr) and v.obj is not None:
                    s = st.mem.get(v.obj, {}).get(('str', v.off))
                if s is None:
                    s = ('v', I.Unk('str'), 's')
                ev.append(s)
            else:
                if I.is_cond(v):
                    v = m.int(st, v)
                ev.append(('v', v, 'x' if c in 'xX' else 'd', mm.group(0)))
        ev.append(fmt[i:])
        return [e for e in ev if e != '']

    def h_fprintf(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        if isinstance(A[0], I.Ptr) and A[0].obj == ('s', 'stderr'):
            return M.done(m, st, ins, L(fresh('?printed', 0, 1 << 20)))
        self.put(m, st, A[0], self.format(m, st, A, args, 1), ins)
        return M.done(m, st, ins, L(fresh('?printed', 0, 1 << 20)))

    def h_printf(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        self.put(m, st, I.Ptr(('s', 'stdout')), self.format(m, st, A, args, 0), ins)
        return M.done(m, st, ins, L(fresh('?printed', 0, 1 << 20)))

    def text(self, m, p):
        s = M.cstring(m, p)
        if s is None:
            raise I.Undecided('text')
        return s

    def h_fputs(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        self.put(m, st, A[1], [self.text(m, A[0])], ins)
        return M.done(m, st, ins, ONE)

    def h_fwrite(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        n = [st.store.const(x) if isinstance(x, Lin) else None for x in A[1:3]]
        if None in n:
            raise I.Undecided('fwrite')
        self.put(m, st, A[3], [self.text(m, A[0])[:n[0] * n[1]]], ins)
        return M.done(m, st, ins, A[2])

    def h_puts(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        self.put(m, st, I.Ptr(('s', 'stdout')), [self.text(m, A[0]) + '\n'], ins)
        return M.done(m, st, ins, ONE)

    def h_fputc(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        if not isinstance(A[0], Lin) or A[0].t:
            raise I.Undecided('text')
        self.put(m, st, A[1] if len(A) > 1 else I.Ptr(('s', 'stdout')), [chr(A[0].c & 255)], ins)
        return M.done(m, st, ins, A[0])

    h_putc = h_putchar = h_fputc

    # ---- strings
    def sets(self, st, p, v):
        st.wcells(p.obj)[('str', p.off)] = v

    def h_typestr(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        self.sets(st, A[0], ('v', A[1], 'typestr'))
        return M.done(m, st, ins)

    def h_tostring(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        self.sets(st, A[0], ('v', A[1], 'd', '%i'))
        return M.done(m, st, ins)

    def call(self, m, st, ins, name, dem, args):
        q = M.strip_templates(dem)
        g = re.match(r'std::(?:__cxx11::)?basic_string(?:\[abi:\w+\])?::(~basic_string|operator=|\w+)', q) if 'basic_string' in q else None
        if g is not None:
            A = self.vals(m, st, args)
            f = g.group(1)
            if f == 'basic_string' and isinstance(A[0], I.Ptr):
                v = ''
                if len(A) > 1 and isinstance(A[1], I.Ptr):
                    v = M.cstring(m, A[1])
                    if v is None:
                        v = st.mem.get(A[1].obj, {}).get(('str', A[1].off))
                if v is None or (len(A) > 1 and 'allocator' not in dem and not isinstance(A[1], I.Ptr)):
                    raise I.Undecided('string')
                self.sets(st, A[0], v)
                return M.done(m, st, ins)
            if f == 'operator=':
                v = M.cstring(m, A[1])
                if v is None:
                    v = st.mem.get(A[1].obj, {}).get(('str', A[1].off))
                if v is None:
                    raise I.Undecided('string')
                self.sets(st, A[0], v)
                return M.done(m, st, ins, A[0])
            if f in ('c_str', 'data'):
                return M.done(m, st, ins, A[0])
            if f == '~basic_string':
                return M.done(m, st, ins)
            raise I.Undecided('string ' + f)
        if re.match(r'std::(__new_)?allocator', q):
            return M.done(m, st, ins)
        q = re.sub(r'\[abi:\w+\]', '', q)
        if q == 'std::operator==' and 'basic_string' in dem:
            A = self.vals(m, st, args)
            v = [M.cstring(m, x) if M.cstring(m, x) is not None else st.mem.get(x.obj, {}).get(('str', x.off)) if isinstance(x, I.Ptr) else None for x in A]
            if not all(isinstance(x, str) for x in v):
                raise I.Undecided('string')
            return M.done(m, st, ins, ONE if v[0] == v[1] else ZERO)
        return self.known_call(m, st, ins, name, dem, q, args)

    def known_call(self, m, st, ins, name, dem, q, args):
        self.stats['calls'] += 1
        h = self.handlers.get(q) or self.handlers.get(name)
        if h is not None:
            return h(self, m, st, ins, dem, args)
        if q.startswith('std::') and 'stream' in q or ('(' not in dem and not name.startswith('llvm.') and name not in self.prog.fn and name not in QUIET):
            raise I.Undecided('call of %s' % (q,))
        return 'nomodel'

    def abort(self, m, st, ins, name):
        self.report(m, st, 'ABORT', ('abort', name), 'reaches %s' % name, ins)

    # ---- library
    def h_read(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        s = M.cstring(m, A[0])
        if self.bail:
            self.fail(m, st, ('bail',), 'goes on although the options do not allow it (%s)' % self.name, ins)
            return 'stop'
        if s is None:
            raise I.Undecided('ReadFile')
        if s != self.infile:
            self.fail(m, st, ('infile',), 'reads "%s" instead of the file given with --infile' % s, ins)
            return 'stop'
        out = []
        for ok in (True, False):
            n = st.copy()
            n.aux['read'] = ok
            if ok:
                M.set_vec(m, n, A[1], I.Vec(self.size, BYTES, None, None))
            n.aux['buf'] = A[1]
            n.top.regs[ins.res] = ZERO if ok else Lin(0xffffffff)
            n.top.idx += 1
            out.append(n)
        return out

    def whole(self, m, st, A, ins, what):
        b = st.aux.get('buf')
        if b is None or not st.aux.get('read') or A[0] != M.elems_ptr(m, b, ZERO) or not isinstance(A[1], Lin) or not st.store.eq(A[1], self.size):
            if isinstance(A[0], I.Ptr) and isinstance(A[1], Lin):
                self.fail(m, st, ('whole', what), '%s is not given the bytes of the file' % what, ins)
            else:
                self.undecided.append('%s(%r)' % (what, A))
            return False
        return True

    def h_parse(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        lens = 'NALULength' in M.strip_templates(dem)
        if 'H264BitstreamParserState' not in dem:
            return 'nomodel'
        if lens is not (self.nb >= 0):
            self.fail(m, st, ('mode',), 'splits the file by %s with %s' % ('length fields' if lens else 'start codes', self.name), ins)
            return 'stop'
        if not self.whole(m, st, A[1:3], ins, 'the parser'):
            return 'stop'
        if lens and not (isinstance(A[3], Lin) and st.store.eq(A[3], Lin(self.nb))):
            self.fail(m, st, ('nb',), 'splits the file with %r-byte lengths, %d were asked for' % (A[3], self.nb), ins)
            return 'stop'
        if not self.options_are(m, st, A[-1], 'parsing', ins):
            return 'stop'
        if st.aux.get('parsed'):
            self.fail(m, st, ('twice',), 'parses the file twice', ins)
        st.aux['parsed'] = 1
        self.make_units(m, st)
        m.storev(st, A[0], I.Ptr(('s', 'bitstream')), ins)
        return M.done(m, st, ins)

    def options_are(self, m, st, b, what, ins):
        if not isinstance(b, I.Blob):
            self.undecided.append('%s options %r' % (what, b))
            return False
        d = dict(b.cells)
        for n, off in self.optnames.items():
            if off in self.known:
                v = d.get(off)
                c = st.store.const(v) if isinstance(v, Lin) else None
                if c is None:
                    self.undecided.append('%s option %s is %r' % (what, n, v))
                    return False
                if c != self.opts[off]:
                    self.fail(m, st, ('opt', what, n), 'the %s option %s is %d with %s' % (what, n, c, self.name), ins)
                    return False
        return True

    def make_units(self, m, st):
        O = self.off

        def obj(name, struct, cells):
            oid = ('s', name)
            m.objinfo[oid] = {'kind': 'sym', 'sym': name, 'struct': struct}
            st.mem[oid] = dict(cells)
            st.own.add(oid)
            return I.Ptr(oid)
        for i in range(self.k):
            u = 'unit%d' % i
            h = obj(u + '.header', HDR, {O['nal_unit_type']: self.typ(i)})
            fm = L(sym(u + '.first_mb_in_slice', 0, 1 << 20))
            sh = obj(u + '.slice_header', SH, {O['first_mb_in_slice']: fm})
            sl = obj(u + '.slice', SL, {O['slice_header']: sh})
            nn = sym('nn(%s.slice)' % u, 0, 1)
            p = obj(u + '.payload', PAY, {O['slice_layer_without_partitioning_rbsp']: I.Ptr(sl.obj, ZERO, 0, nn.id)})
            off = L(sym(u + '.offset', 0, 1 << 40))
            r = st.store.assume(atom(self.size.add(off, -1), ((self.lengths[i], INF),)), True)
            st.store = r[0]
            obj(u, NALU, {O['offset']: off, O['length']: Lin(self.lengths[i]), O['nal_unit_header']: h, O['nal_unit_payload']: p})
        obj('bitstream', BS, {O['nal_units']: I.Vec(Lin(self.k), UNITS, None, None)})

    def h_indices(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        if not self.whole(m, st, A[1:3], ins, 'FindNaluIndices()'):
            return 'stop'
        M.set_vec(m, st, A[0], I.Vec(self.dropped.addc(self.k), (('cli-indices',),), None, None))
        return M.done(m, st, ins)

    def h_dump(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        i, part = self.unit(m, A[0])
        if i is None or part:
            raise I.Undecided('dumps %r' % (A[0],))
        if not isinstance(A[2], Lin) or st.store.const(A[2]) is None:
            self.undecided.append('indent %r' % (A[2],))
            return 'stop'
        if not self.options_are(m, st, A[3], 'dump', ins):
            return 'stop'
        ind = st.store.const(A[2]) & 0xffffffff
        want = 0xffffffff if self.flags['as-one-line'] else 0
        if ind != want:
            self.fail(m, st, ('indent',), 'dumps with indent level %d with %s' % (ind, self.name), ins)
            return 'stop'
        self.put(m, st, A[1], [('dump', i)], ins)
        return M.done(m, st, ins)

    def h_parsed(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        i, part = self.unit(m, A[0])
        if i is None or part != '.payload':
            raise I.Undecided('IsPayloadParsed of %r' % (A[0],))
        if not isinstance(A[1], Lin) or not st.store.eq(A[1], self.typ(i)):
            self.fail(m, st, ('type', 'parsed'), 'asks for the payload of type %r, the type of the unit is %r' % (A[1], self.typ(i)), ins)
            return 'stop'
        return M.done(m, st, ins, L(sym('unit%d parsed' % i, 0, 1)))

    def h_slice(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        for i in range(self.k):
            if isinstance(A[0], Lin) and st.store.eq(A[0], self.typ(i)):
                return M.done(m, st, ins, L(sym('unit%d is a slice' % i, 0, 1)))
        raise I.Undecided('IsSliceSegment(%r)' % (A[0],))

    def h_count(self, o, m, st, ins, dem, args):
        if not st.aux.get('parsed'):
            return M.done(m, st, ins, ZERO)
        return M.done(m, st, ins, ZERO if st.aux.get('cleared') else self.unimpl)

    def h_reset(self, o, m, st, ins, dem, args):
        if st.aux.get('parsed'):
            st.aux['cleared'] = 1
        return M.done(m, st, ins)

    # ---- obligations at the end
    def split(self, st, c):
        d = st.store.decide(c)
        if d is None:
            raise I.NeedSplit([c, c_not(c)])
        return d

    def flag(self, st, name):
        return self.split(st, atom(L(sym(name, 0, 1)), ((1, 1),)))

    def main_post(self, o, m, st, v, ins):
        self.outcome(m, st, v, ins, False)

    def outcome(self, m, st, v, ins, exits):
        if I.is_cond(v):
            v = m.int(st, v)
        c = st.store.const(v) if isinstance(v, Lin) else None
        if c is None:
            self.undecided.append('%s: status %r' % (self.name, v))
            return
        c &= 255
        self.stats['returns'] += 1
        if self.bail or st.aux.get('read') is False or st.aux.get('opened') is False:
            want = self.bail or 'fail'
            if want == 'ok' and c != 0 or want == 'fail' and c == 0:
                self.fail(m, st, ('status', 'bail'), 'ends with status %d %s' % (c, 'although %s' % ('the input file cannot be read' if st.aux.get('read') is False else 'the output file cannot be opened' if st.aux.get('opened') is False else 'the options are ' + self.name)), ins)
            return
        if self.infile is None:
            return
        if not st.aux.get('parsed'):
            self.fail(m, st, ('noparse',), 'ends with status %d without parsing the file (%s)' % (c, self.name), ins)
            return
        if self.split(st, atom(self.unimpl, ((1, INF),))):
            want, why = 2, 'unsupported syntax was met'
        else:
            bad = self.nb < 0 and self.split(st, atom(self.dropped, ((1, INF),)))
            for i in range(self.k):
                bad = not self.flag(st, 'unit%d parsed' % i) or bad
            want, why = (1, 'a unit did not parse') if bad else (0, 'every unit parsed')
        if c != want:
            self.fail(m, st, ('status', want), 'ends with status %d although %s (%s)' % (c, why, self.name), ins)
            return
        self.written(m, st, ins)

    def written(self, m, st, ins):
        out = st.aux.get('out', ())
        if any(n in ('debug', '-d') for n, a in self.argv):
            out = tuple(x for x in out if x[0] == self.outfp) if self.outfp != 'stdout' else ()
            if self.outfp == 'stdout':
                return
        for fp, e in out:
            if fp != self.outfp:
                self.fail(m, st, ('where',), 'writes to %s, the output was to go to %s (%s)' % (fp, self.outfp, self.name), ins)
                return
        ev = [e for fp, e in out]
        try:
            want = self.want_all() if self.mode == 'all' else self.want_length(m, st)
        except I.Undecided as e:
            self.undecided.append(str(e))
            return
        got, want = self.norm(ev), self.norm(want)
        for j in range(max(len(got), len(want))):
            g = got[j] if j < len(got) else None
            w = want[j] if j < len(want) else None
            r = self.same(m, st, g, w)
            if r is None:
                self.undecided.append('%s: writes %r' % (self.name, g))
                return
            if not r:
                self.fail(m, st, ('text', self.mode), 'writes %s where %s belongs (%s, item %d of the output)' % (self.show(g), self.show(w), self.name, j), ins)
                return

    def show(self, e):
        if e is None:
            return 'nothing'
        if isinstance(e, str):
            return repr(e)
        return 'the dump of unit %d' % e[1] if e[0] == 'dump' else repr(e[1])

    def norm(self, ev):
        """words: text is cut at whitespace and commas, end of line kept"""
        out = []
        for e in ev:
            if isinstance(e, str):
                out += re.findall(r'\n|,|[^\s,]+', e)
            else:
                out.append(e)
        return out

    def same(self, m, st, g, w):
        if g is None or w is None or isinstance(w, str) or w[0] == 'dump':
            return g == w
        if isinstance(g, str):
            if re.fullmatch(r'-?\d+', g) and w[0] == 'v' and w[2] == 'd':
                return st.store.eq(w[1], Lin(int(g)))
            return False
        if g[0] != 'v':
            return False
        if not isinstance(g[1], Lin):
            return None
        if g[2] != w[2]:
            return False
        if len(w) > 3 and w[3] and g[3] != w[3]:
            return False
        if not w[1].t and not -(1 << 31) <= w[1].c < 1 << 32:
            return st.store.eq(m.norm(st, g[1], 64, True), w[1])
        return st.store.eq(g[1], w[1]) or any(st.store.eq(m.norm(st, g[1], k, s), m.norm(st, w[1], k, s)) for k in (32, 64) for s in (True, False))

    def want_all(self):
        out = []
        for i in range(self.k):
            out.append(('dump', i))
            if self.flags['add-contents']:
                out.append(' contents {')
                for j in range(self.lengths[i]):
                    out.append(('v', L(sym('file(%r)' % L(sym('unit%d.offset' % i, 0, 1 << 40)).addc(j), 0, 255)), 'x', '%02x'))
                out.append('}')
            out.append('\n')
        return out

    def want_length(self, m, st):
        D = lambda v: ('v', v if isinstance(v, Lin) else Lin(v), 'd')
        out = ['nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_mb_in_slice\n']
        total, frame, last = 0, 0, None

        def frame_row():
            return [',', D(frame), ',', D(last), ',frame,,', D(total * 8 * self.fps), ',\n']
        for i in range(self.k):
            s = self.flag(st, 'unit%d is a slice' % i)
            first = ZERO
            if s:
                if self.flag(st, 'nn(unit%d.slice)' % i):
                    first = L(sym('unit%d.first_mb_in_slice' % i, 0, 1 << 20))
                if self.split(st, atom(first, ((0, 0),))) and total:
                    out += frame_row()
                    frame += 1
                    total = 0
                last = self.typ(i)
                total += self.lengths[i]
            out += [D(i), ',', D(frame), ',', D(self.typ(i)), ',', ('v', self.typ(i), 'typestr'), ',', D(self.lengths[i]), ',,'] + ([D(first)] if s else []) + ['\n']
        if total:
            out += frame_row()
        return out


def tool(prog, argv, k, lengths=LENGTHS):
    name = ' '.join('--' + n + ('=' + a if a is not None else '') for n, a in argv) or 'no options'
    fn = prog.fn.get('main')
    if fn is None:
        raise Anchor('main(): no definition')
    o = Cli(prog, name, argv, k, lengths)
    r = Run(prog, fn, o, machine=Unroll)
    o.mod = next(x for x in prog.modules if fn.name in x.functions)
    for f in ('stdout', 'stderr', 'stdin'):
        o.global_cell(r.m, r.st, f, I.Ptr(('s', f)))
        r.obj(f, None)
    r.obj('outfile', None)
    for g in o.mod.globals:         # variables hold their initial values when main() starts
        d = o.mod.globals[g]
        if ' global ' in ' ' + d and 'external' not in d.split('global')[0]:
            p = r.m.global_ptr_of(o.mod, g)
            v = M.parse_global(r.m.objinfo[p.obj])
            if v:
                M.fill_from_const(r.m, r.st, r.st.wcells(p.obj), 0, v[0], v[1], o.mod)
    argvp = r.raw('argv', Lin(8 * 64), 8)
    return r.go(Lin(len(argv) + 1), argvp)


# ------------------------------------------------------------------ ReadFile
class Reader(Obs):
    """the file, its size and what fread() returns are symbolic"""

    def __init__(self, prog, name, file):
        super().__init__(name, self.end)
        self.file = file
        self.prog = prog
        self.size = L(sym('ftell', -1, 1 << 40))
        H = self.handlers
        for q in ('fopen', 'fclose', 'fseek', 'rewind', 'ftell', 'fread', 'strlen', 'strcmp', 'strncmp', 'fprintf'):
            H[q] = getattr(self, 'h_' + q)
        H['fseeko'], H['ftello'] = self.h_fseek, self.h_ftell
        H['std::istream::read'] = H['std::basic_istream::read'] = self.h_cinread
        H['std::istream::gcount'] = H['std::basic_istream::gcount'] = self.h_gcount
        for c in ('std::basic_ios', 'std::ios', 'std::istream', 'std::basic_istream'):
            for f in ('operator bool', 'good'):
                H[c + '::' + f] = self.h_good
            for f in ('operator!', 'eof', 'fail'):
                H[c + '::' + f] = self.h_bad
        H['std::vector::insert'] = self.h_insert

    vals = Cli.vals
    call = Cli.call
    known_call = Cli.known_call
    sets = Cli.sets
    h_strlen = Cli.h_strlen
    h_strcmp = Cli.h_strcmp
    h_strncmp = Cli.h_strncmp
    arg = Cli.arg

    def h_fprintf(self, o, m, st, ins, dem, args):
        return M.done(m, st, ins, L(fresh('?printed', 0, 1 << 20)))

    def h_fopen(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        s, mode = M.cstring(m, A[0]), M.cstring(m, A[1])
        if s is None or mode is None:
            raise I.Undecided('fopen')
        if self.file in (None, '-') or s != self.file or mode.replace('b', '') != 'r':
            self.fail(m, st, ('open',), 'opens "%s" (%s) to read %s' % (s, mode, self.file or 'the standard input'), ins)
            return 'stop'
        out = []
        for ok in (True, False):
            n = st.copy()
            n.aux['open'] = ok
            n.aux['at'] = 0
            n.top.regs[ins.res] = I.Ptr(('s', 'file')) if ok else I.NULL
            n.top.idx += 1
            out.append(n)
        return out

    def fp(self, m, st, p, ins):
        if not isinstance(p, I.Ptr) or p.obj != ('s', 'file'):
            if isinstance(p, I.Ptr) and p.obj is None:
                self.fail(m, st, ('null',), 'uses a file that could not be opened', ins)
            raise I.Undecided('file %r' % (p,))
        if st.aux.get('closed'):
            self.fail(m, st, ('closed',), 'uses the file after closing it', ins)

    def h_fclose(self, o, m, st, ins, dem, args):
        self.fp(m, st, self.vals(m, st, args)[0], ins)
        st.aux['closed'] = 1
        return M.done(m, st, ins, ZERO)

    def h_fseek(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        self.fp(m, st, A[0], ins)
        if A[1] != ZERO or not isinstance(A[2], Lin) or A[2].t or A[2].c not in (0, 2):
            raise I.Undecided('fseek')
        st.aux['at'] = 0 if A[2].c == 0 else 'end'
        return M.done(m, st, ins, ZERO)

    def h_rewind(self, o, m, st, ins, dem, args):
        self.fp(m, st, self.vals(m, st, args)[0], ins)
        st.aux['at'] = 0
        return M.done(m, st, ins)

    def h_ftell(self, o, m, st, ins, dem, args):
        self.fp(m, st, self.vals(m, st, args)[0], ins)
        return M.done(m, st, ins, self.size if st.aux['at'] == 'end' else ZERO)

    def h_fread(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        self.fp(m, st, A[3], ins)
        v = M.get_vec(m, st, self.buf)
        es, n = st.store.const(A[1]), A[2]
        if A[0] != M.elems_ptr(m, self.buf, ZERO) or es != 1 or not isinstance(n, Lin) or v is None or st.aux.get('got') is not None:
            raise I.Undecided('fread')
        if st.store.rng(v.len.add(n, -1))[0] < 0:
            self.fail(m, st, ('room',), 'reads %r bytes into a buffer of %r' % (n, v.len), ins)
            return 'stop'
        if st.aux['at'] != 0:
            self.fail(m, st, ('seek',), 'reads from the end of the file', ins)
            return 'stop'
        g = L(sym('fread', 0, 1 << 40))
        r = st.store.assume(atom(n.add(g, -1), ((0, INF),)), True)
        st.store = r[0]
        st.aux['got'] = (g, n)
        return M.done(m, st, ins, g)

    # standard input
    def h_cinread(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        if self.file not in (None, '-'):
            self.fail(m, st, ('stdin',), 'reads the standard input instead of the file', ins)
            return 'stop'
        k = st.aux.get('reads', 0)
        n = st.store.const(A[2]) if isinstance(A[2], Lin) else None
        if n is None or not isinstance(A[1], I.Ptr):
            raise I.Undecided('read')
        if not self.good(st):       # nothing more after a short read
            st.aux['chunk'] = (A[1], ZERO, n)
            return M.done(m, st, ins, A[0])
        st.aux['reads'] = k = k + 1
        g = L(sym('chunk%d(%d)' % (k, n), 0, n)) if k < 4 else ZERO
        st.aux['chunk'] = (A[1], g, n)
        st.aux['all'] = st.aux.get('all', ZERO).add(g)
        st.aux['taken'] = 0
        return M.done(m, st, ins, A[0])

    def good(self, st):
        """no read came short so far"""
        c = st.aux.get('chunk')
        if c is None:
            return True
        f = atom(c[1], ((c[2], c[2]),))
        d = st.store.decide(f)
        if d is None:
            raise I.NeedSplit([f, c_not(f)])
        return d

    def h_good(self, o, m, st, ins, dem, args):
        return M.done(m, st, ins, ONE if self.good(st) else ZERO)

    def h_bad(self, o, m, st, ins, dem, args):
        return M.done(m, st, ins, ZERO if self.good(st) else ONE)

    def h_gcount(self, o, m, st, ins, dem, args):
        c = st.aux.get('chunk')
        return M.done(m, st, ins, c[1] if c else ZERO)

    def h_insert(self, o, m, st, ins, dem, args):
        A = self.vals(m, st, args)
        c = st.aux.get('chunk')
        v = M.get_vec(m, st, A[0])
        if len(A) != 4 or A[0] != self.buf or c is None or v is None or not all(isinstance(x, I.Ptr) for x in A[2:]) or A[2].obj != c[0].obj or A[3].obj != c[0].obj:
            raise I.Undecided('insert %r' % (A,))
        pos = A[1]
        n = A[3].idx.addc(A[3].off).add(A[2].idx.addc(A[2].off), -1)
        if st.aux.get('taken') or A[2] != c[0] or not st.store.eq(n, c[1]):
            self.fail(m, st, ('append',), 'appends %r bytes of the input of which %r were read' % (n, c[1]), ins)
            return 'stop'
        st.aux['taken'] = 1
        M.set_vec(m, st, A[0], I.Vec(v.len.add(n), BYTES, None, None))
        return M.done(m, st, ins, M.elems_ptr(m, A[0], v.len))

    def end(self, o, m, st, v, ins):
        if I.is_cond(v):
            v = m.int(st, v)
        c = st.store.const(v) if isinstance(v, Lin) else None
        if c is None:
            self.undecided.append('%s: returns %r' % (self.name, v))
            return
        ok = not c & (1 << 31)
        vec = M.get_vec(m, st, self.buf)
        if self.file in (None, '-'):
            if not ok:
                self.fail(m, st, ('stdin-fails',), '%s fails without a failure of the input' % self.name, ins)
            elif self.good(st):
                self.fail(m, st, ('stdin-stops',), '%s stops although more input may follow' % self.name, ins)
            elif vec is None or not st.store.eq(vec.len, st.aux.get('all', ZERO)):
                self.fail(m, st, ('stdin-size',), '%s returns %r bytes' % (self.name, vec and vec.len), ins)
            return
        op = st.aux.get('open')
        g = st.aux.get('got')
        if not op:
            if ok:
                self.fail(m, st, ('status', 'open'), '%s succeeds although the file %s' % (self.name, 'could not be opened' if op is False else 'was not opened'), ins)
            return
        pos = atom(self.size, ((1, INF),))
        d = st.store.decide(pos)
        if d is None:
            raise I.NeedSplit([pos, c_not(pos)])
        if not d:
            if ok and st.store.decide(atom(self.size, ((0, 0),))) is not True:
                self.fail(m, st, ('status', 'size'), '%s succeeds although the size of the file is unknown' % self.name, ins)
            return
        if g is None:
            self.fail(m, st, ('status', 'unread'), '%s returns %d without reading the file' % (self.name, c), ins)
            return
        if not st.store.eq(g[1], self.size):
            self.fail(m, st, ('part',), '%s reads %r of the %r bytes of the file' % (self.name, g[1], self.size), ins)
            return
        full = atom(g[0].add(self.size, -1), ((0, 0),))
        d = st.store.decide(full)
        if d is None:
            raise I.NeedSplit([full, c_not(full)])
        if d is not ok:
            self.fail(m, st, ('status', 'read'), '%s %s although %s of the file could be read' % (self.name, 'succeeds' if ok else 'fails', 'all' if d else 'only a part'), ins)
        elif ok and (vec is None or not st.store.eq(vec.len, self.size)):
            self.fail(m, st, ('size',), '%s returns %r bytes of a file of %r' % (self.name, vec and vec.len, self.size), ins)


def reader(prog, file):
    fn = find(prog, N + 'H264Utils::ReadFile')
    o = Reader(prog, 'ReadFile(%s)' % ('null' if file is None else '"%s"' % file), file)
    r = Run(prog, fn, o, machine=Unroll)
    o.mod = fn.mod
    r.obj('file', None)
    o.buf = r.obj('buffer', None, {0: I.Vec(ZERO, (), None, None)})
    return r.go(I.NULL if file is None else o.arg(r.m, file), o.buf)


def scenarios(tier):
    I_ = ('infile', 'in.264')
    out = []
    for k in (0, 1, 2):
        out.append(([I_], k))
    for f in FLAGS:
        out += [([I_, (f, None)], 1), ([('no-' + f, None), I_], 1), ([(f, None), ('no-' + f, None), I_], 1), ([('no-' + f, None), (f, None), I_], 1)]
    out.append(([I_] + [(f, None) for f in FLAGS], 2))
    out.append(([I_, ('add-contents', None), ('no-add-offset', None), ('no-add-length', None)], 1))
    for k in (0, 1, 2, 3) if tier != 'quick' else (0, 1, 2):
        out.append(([I_, ('dump-length', None)], k))
    out.append(([I_, ('dump-length', None), ('frames-per-second', '25')], 2))
    out.append(([I_, ('dump-length', None), ('frames-per-second', '2147483647')], 2))
    out.append(([I_, ('dump-length', None)], 2, BIG))
    out.append(([I_, ('dump-length', None), ('dump-all', None)], 1))
    for b in ('0', '1', '2', '3', '4', '8'):
        out.append(([I_, ('nalu-length-bytes', b)], 1))
    out.append(([I_, ('nalu-length-bytes', '4')], 2))
    out.append(([I_, ('nalu-length-bytes', '4'), ('dump-length', None)], 1))
    for a in ('x', '4x', '2147483648', '4294967300', '18446744073709551620'):
        out += [([I_, ('nalu-length-bytes', a)], 1), ([I_, ('frames-per-second', a)], 1)]
    out += [([I_, ('outfile', 'out.txt')], 1), ([I_, ('outfile', '-')], 1), ([I_, ('outfile', '-x')], 1), ([I_, ('outfile', 'o')], 1), ([I_, ('outfile', 'out.txt'), ('dump-length', None)], 1)]
    out += [([('-i', 'in.264'), ('-o', 'out.txt')], 1), ([('-h', None)], 0), ([('-d', None), ('-i', 'in.264')], 1)]
    out += [([], 0), ([('help', None)], 0), ([('version', None)], 0), ([I_, ('?', None)], 0), ([('avcc-file', 'a.avcc')], 0), ([I_, ('quiet', None)], 1), ([I_, ('debug', None)], 1)]
    if tier != 'quick':
        fl = [(p + f, None) for f in FLAGS for p in ('', 'no-')]
        out += [([I_, a, b], 1) for a in fl for b in fl if a != b]
    return out


def run(prog, tier='quick'):
    c = Checks(prog)
    for sc in scenarios(tier):
        c.do('h264nal', lambda: tool(prog, *sc))
    for f in ('in.264', 'x', '-x', '-', None):
        c.do('ReadFile', lambda: reader(prog, f))
    return c


if __name__ == '__main__':
    main(run)
