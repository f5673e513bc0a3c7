"""Models of the C++ standard library / libc entry points the code base uses
(API level), lazily symbolic input objects, vectors, maps and iterators."""
import re
from functools import lru_cache
from dom import *
import interp as I
import ir

PTRT = ir.PTR


@lru_cache(maxsize=None)
def strip_templates(dem):
    """demangled name -> qualified name without template args / params / return type"""
    s = dem
    for a, b in (('operator->', 'operator@arrow'), ('operator<<', 'operator@shl'), ('operator>>', 'operator@shr'),
                 ('operator<=', 'operator@le'), ('operator>=', 'operator@ge'), ('operator()', 'operator@call'),
                 ('(anonymous namespace)', '@anon'), ('operator<', 'operator@lt'), ('operator>', 'operator@gt')):
        # operator< may be followed by template args: "operator< <"
        s = s.replace(a, b)
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            if c == '(':
                # a parameter list inside the name belongs to an enclosing
                # function (lambda, local class)
                k, e = 0, i
                while e < len(s):
                    k += {'(': 1, ')': -1}.get(s[e], 0)
                    if k == 0:
                        break
                    e += 1
                mm = re.match(r'\)( const| noexcept| volatile| &)*::', s[e:])
                if not mm:
                    break
                out.append('@fn::')
                i = e + mm.end()
                continue
            out.append(c)
        i += 1
    q = ''.join(out).strip()
    # drop return type
    m = re.search(r'(operator .*)$', q)
    if m and '::' in q:
        # conversion operator "operator bool"
        k = q.rfind(' ', 0, m.start())
        return q[k + 1:]
    return q.split(' ')[-1]


def tmpl_arg(dem, cls):
    """first template argument of cls<...> in a demangled/type name"""
    i = dem.find(cls + '<')
    if i < 0:
        return None
    j = i + len(cls) + 1
    d = 0
    for k in range(j, len(dem)):
        c = dem[k]
        if c == '<':
            d += 1
        elif c == '>':
            if d == 0:
                return dem[j:k].strip()
            d -= 1
        elif c == ',' and d == 0:
            return dem[j:k].strip()
    return None


PURE = re.compile(r'^(fprintf|printf|snprintf|fputs|puts|putchar|fputc|fflush|strlen|strcmp|abort|exit|__assert_fail|fclose|fopen)$')


def is_pure(dem):
    return bool(PURE.match(dem)) or 'basic_ostream' in dem


def done(m, st, ins, v=None):
    if ins.res is not None:
        st.top.regs[ins.res] = v if v is not None else I.Unk('void')
    return None


def fork(st, ins, alts):
    """alts: list of (store, value, fn(state) or None) -> list of positioned states"""
    out = []
    for store, v, fn in alts:
        n = st.copy()
        n.store = store
        if ins.res is not None and v is not None:
            n.top.regs[ins.res] = v
        if fn is not None:
            fn(n)
        n.top.idx += 1
        out.append(n)
    return out


# ------------------------------------------------------------------ lazily symbolic objects
def sym_object(m, st, name, struct, nn=False):
    """pointer to a symbolic input object of struct type"""
    oid = ('s', name)
    if oid not in m.objinfo:
        m.objinfo[oid] = {'kind': 'sym', 'sym': name, 'struct': struct}
    if oid not in st.mem:
        st.mem[oid] = {}
        st.own.add(oid)
    nid = None
    if nn:
        nid = sym('nn(' + name + ')', 0, 1).id
    return I.Ptr(oid, ZERO, 0, nid)


def field_at(m, struct, off):
    """-> (fieldname, tydesc, exact) for the innermost scalar/class member at off"""
    mem = m.prog.structs.get(struct)
    if not mem:
        return None
    best = None
    for o, sz, nm, td in mem:
        if o <= off and (off < o + max(sz, 1)):
            best = (o, nm, td)
    if best is None:
        return None
    o, nm, td = best
    if td[0] == 'cls' and td[1] in m.prog.structs and m.prog.structs[td[1]]:
        sub = field_at(m, td[1], off - o)
        if sub is not None:
            return (nm + '.' + sub[0], sub[1], sub[2])
    return (nm, td, off == o)


def typed_range(td, w):
    if td[0] == 's':
        return I.vrange(td[1], True)
    if td[0] == 'bool':
        return (0, 1)
    if td[0] == 'u':
        return (0, (1 << td[1]) - 1)
    if td[0] == 'enum':
        return (0, (1 << min(w, td[2])) - 1)
    return (0, (1 << w) - 1)


def mk_sym(m, name, lo, hi):
    r = m.assumed_ranges.get(name)
    if r is not None:
        lo, hi = max(lo, r[0]), min(hi, r[1])
    return sym('%s' % name, lo, hi)


def lazy_field(m, st, p, ty, info):
    nm = info['sym']
    fa = field_at(m, info.get('struct') or '', p.off)
    if fa is None:
        fname, td = '+%d' % p.off, ('u', ty[1] if ty[0] == 'i' else 64)
    else:
        fname, td, _ = fa
    full = nm + '.' + fname
    r = m.obs.lazy_value(m, st, full, td, ty, info, fname)
    if r is not None:
        return r
    if td[0] == 'cls':
        c = td[1]
        if c.startswith('std::unique_ptr') or c.startswith('std::shared_ptr'):
            a = tmpl_arg(c, 'std::unique_ptr') or tmpl_arg(c, 'std::shared_ptr')
            return sym_object(m, st, full, a, nn=True)
        if c.startswith('std::vector'):
            return sym_vec(m, full)
    if td[0] == 'ptr':
        t = td[1]
        return sym_object(m, st, full, t[1] if t[0] == 'cls' else None, nn=True)
    if ty[0] == 'i':
        lo, hi = typed_range(td, ty[1])
        return L(mk_sym(m, full, lo, hi))
    if ty[0] == 'ptr':
        return sym_object(m, st, full, None, nn=True)
    return I.Unk('lazy:' + full)


def sym_vec(m, full):
    k = m.known_size.get(full.split('[')[0] if '[' in full else full)
    if isinstance(k, int) and '[' in full:
        return I.Vec(Lin(k), (), None, full)
    if isinstance(k, str) and '[' not in full:
        return I.Vec(L(mk_sym(m, k + '.size', 0, 1 << 48)), (), None, full)
    return I.Vec(L(mk_sym(m, full + '.size', 0, 1 << 48)), (), None, full)


def get_vec(m, st, p):
    """Vec stored at address p (creating it for symbolic objects)"""
    if not isinstance(p, I.Ptr) or p.obj is None:
        return None
    if p.nn is not None:
        m.obs.deref(m, st, p, None, 'vec')
    info = m.objinfo.get(p.obj, {})
    if p.idx != ZERO or info.get('array'):
        v = array_load(m, st, p, ('vec',), None, info)
        return v if isinstance(v, I.Vec) else I.Vec(L(sym('vlen:%r' % (p,), 0, 1 << 48)), (), None, 'v:%r' % (p,))
    c = st.mem.get(p.obj, {})
    v = c.get(p.off)
    if isinstance(v, I.Vec):
        return v
    if info.get('sym') is not None:
        v = lazy_field(m, st, p, ('vec',), info)
        if isinstance(v, I.Vec):
            st.wcells(p.obj)[p.off] = v
            return v
    return None


def havoc_vec(m, st, p):
    if isinstance(p, I.Ptr) and p.obj is not None:
        ln = L(fresh('vlen', 0, 1 << 48))
        set_vec(m, st, p, I.Vec(ln, ((('havoc',), ln),), None, None))
        return ln


def set_vec(m, st, p, v):
    m.obs.on_store(m, st, p, v, None)
    info = m.objinfo.get(p.obj, {})
    if p.idx != ZERO or info.get('array'):
        array_store(m, st, p, v, None, info)
        return
    st.wcells(p.obj)[p.off] = v


def elems_ptr(m, p, idx):
    oid = ('e', p.obj, p.off, p.idx)
    if oid not in m.objinfo:
        m.objinfo[oid] = {'kind': 'elems', 'array': True, 'vec': p, 'esize': None}
    return I.Ptr(oid, idx, 0)


def array_load(m, st, p, ty, ins, info):
    if info.get('kind') == 'elems':
        vp = info['vec']
        v = get_vec(m, st, vp)
        m.obs.index(m, st, p, v, ins, 'load')
        if v is None:
            return m.unknown(st, ty if ty[0] != 'vec' else ('i', 64), ins, 'elem')
        if v.last is not None and st.store.eq(v.last[0], p.idx):
            x = v.last[1]
            if isinstance(x, tuple) and x and x[0] == 'struct':
                for o, y in x[2]:
                    if o == p.off:
                        return y
            elif p.off == 0:
                return x
        return elem_value(m, st, v, vp, p, ty, ins)
    if info.get('kind') == 'raw':
        return m.obs.raw_load(m, st, p, ty, ins, info)
    if info.get('kind') == 'global':
        r = global_load(m, st, info, p, ty)
        if r is not None:
            return r
    # local array with symbolic index: enumerate small index sets
    c = st.store.const(p.idx)
    if c is not None:
        return m.load(st, I.Ptr(p.obj, ZERO, p.off + c, p.nn), ty, ins)
    vs = st.store.value_set(p.idx)
    if is_size(vs) <= 64:
        raise I.NeedSplit([atom(p.idx, ((k, k),)) for k in is_values(vs)])
    return m.unknown(st, ty, ins, 'arr')


def elem_struct(m, vp):
    info = m.objinfo.get(vp.obj, {})
    if info.get('kind') == 'elems' and vp.off == 0:
        t = elem_struct(m, info['vec'])
        return tmpl_arg(t, 'std::vector') if t else None
    fa = field_at(m, info.get('struct') or '', vp.off)
    if fa and fa[1][0] == 'cls':
        return tmpl_arg(fa[1][1], 'std::vector')
    return info.get('elem')


def elem_value(m, st, v, vp, p, ty, ins):
    name = v.sname
    if name is None:
        name = 'elem%r' % ((vp.obj, vp.off),)
        return m.obs.elem_read(m, st, v, vp, p, ty, ins)
    full = '%s[%r]' % (name, p.idx)
    m.elemsym[full] = (name, p.idx)
    et = elem_struct(m, vp)
    if et and et in m.prog.structs:
        fa = field_at(m, et, p.off)
        if fa:
            full += '.' + fa[0]
            lo, hi = typed_range(fa[1], ty[1] if ty[0] == 'i' else 64)
            if fa[1][0] == 'cls' and ('unique_ptr' in fa[1][1] or 'shared_ptr' in fa[1][1]):
                a = tmpl_arg(fa[1][1], 'std::unique_ptr') or tmpl_arg(fa[1][1], 'std::shared_ptr')
                return sym_object(m, st, full, a, nn=True)
            if fa[1][0] == 'cls' and fa[1][1].startswith('std::vector'):
                return sym_vec(m, full)
            if ty[0] == 'i':
                return L(mk_sym(m, full, lo, hi))
    if et and (et.startswith('std::unique_ptr') or et.startswith('std::shared_ptr')):
        a = tmpl_arg(et, 'std::unique_ptr') or tmpl_arg(et, 'std::shared_ptr')
        return sym_object(m, st, full, a, nn=True)
    if et and et.startswith('std::vector'):
        return sym_vec(m, full)
    if ty[0] == 'i':
        lo, hi = I.vrange(ty[1], bool(et and et in ('int', 'long', 'short', 'signed char')))
        base = re.sub(r'\[.*\]$', '[]', full)
        r = m.assumed_ranges.get(base)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return L(sym(full, lo, hi))
    if ty[0] == 'ptr':
        return sym_object(m, st, full, None, nn=True)
    return I.Unk(full)


def array_store(m, st, p, v, ins, info):
    if info.get('kind') == 'elems':
        vp = info['vec']
        vec = get_vec(m, st, vp)
        m.obs.index(m, st, p, vec, ins, 'store')
        if vec is None:
            return
        if I.is_cond(v):
            v = m.int(st, v)
        set_vec(m, st, vp, vec_write(m, st, vec, p.idx, v, p.off))
        return
    if info.get('kind') == 'raw':
        m.obs.raw_store(m, st, p, v, ins, info)
        return
    c = st.store.const(p.idx)
    if c is not None:
        m.storev(st, I.Ptr(p.obj, ZERO, p.off + c, p.nn), v, ins)
        return
    # local array, symbolic index: forget the array
    st.mem[p.obj] = {}
    st.own.add(p.obj)


def add_item(items, k, c):
    d = dict(items)
    d[k] = d.get(k, ZERO).add(c)
    if d[k] == ZERO:
        del d[k]
    return tuple(sorted(d.items(), key=lambda x: str(x[0])))


def vec_write(m, st, vec, idx, v, off=0):
    if isinstance(v, I.Vec):
        # element vectors: the outer vector counts the elements of all of them
        items = vec.items
        old = vec.last[1].items if vec.last is not None and isinstance(vec.last[1], I.Vec) and st.store.eq(vec.last[0], idx) else None
        if old is None:
            items = add_item(items, ('rewritten',), ONE)
            old = ()
        for k, c in old:
            items = add_item(items, k, c.scale(-1))
        od = dict(old)
        for k, c in v.items:
            if od.get(k) != c:
                k = m.obs.inner_key(m, st, k, idx, vec)
            items = add_item(items, k, c)
        return I.Vec(vec.len, items, (idx, v) if off == 0 else None, vec.sname)
    if vec.last is not None and isinstance(vec.last[1], tuple) and vec.last[1][0] == 'struct' and st.store.eq(vec.last[0], idx):
        x = vec.last[1]
        return I.Vec(vec.len, vec.items, (vec.last[0], ('struct', x[1], tuple(sorted([(o, y) for o, y in x[2] if o != off] + [(off, v)], key=lambda z: z[0])))), vec.sname)
    key = m.obs.provenance(m, st, v, idx, vec, True)
    return I.Vec(vec.len, add_item(vec.items, key, ONE), (idx, v) if off == 0 else None, vec.sname)


def vec_push(m, st, vec, v):
    if st.store.rng(vec.len)[1] > 1 << 48:
        # no vector holds that many elements
        r = st.store.assume(atom(vec.len, ((0, 1 << 48),)), True)
        if r:
            st.store = r[0]
    if isinstance(v, I.Vec):
        items = vec.items
        for k, c in v.items:
            items = add_item(items, m.obs.inner_key(m, st, k, vec.len, vec), c)
        return I.Vec(vec.len.addc(1), items, (vec.len, v), vec.sname)
    key = m.obs.provenance(m, st, v, vec.len, vec)
    return I.Vec(vec.len.addc(1), add_item(vec.items, key, ONE), (vec.len, v), vec.sname)


# ------------------------------------------------------------------ globals
def parse_global(info):
    if 'parsed' in info:
        return info['parsed']
    d = info.get('def')
    r = None
    if d:
        mm = re.search(r'(?:constant|global) (.*)$', d)
        if mm and 'external' not in d.split('constant')[0].split('global')[0]:
            try:
                p = ir.P(ir.tokenize(mm.group(1)))
                t = ir.parse_type(p)
                v = ir.parse_value(p, t)
                r = (t, v, 'constant' in d.split('global')[0])
            except Exception:
                r = None
    info['parsed'] = r
    return r


def cstring(m, p):
    """contents of a constant C string global"""
    if not isinstance(p, I.Ptr) or p.obj is None:
        return None
    info = m.objinfo.get(p.obj, {})
    if info.get('kind') != 'global':
        return None
    g = parse_global(info)
    if not g or g[1][0] != 'str':
        if g and g[1][0] == 'zero':
            return ''
        return None
    s = g[1][1]
    if s.startswith('c'):
        s = s[1:]
    s = s[1:-1]
    s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda mm: chr(int(mm.group(1), 16)), s)
    s = s[p.off:]
    return s.split('\0')[0]


def global_load(m, st, info, p, ty):
    g = parse_global(info)
    if not g or not g[2]:
        return None
    t, v, _ = g
    off = p.off
    if p.idx != ZERO:
        vs = st.store.value_set(p.idx)
        if is_size(vs) <= 256 and st.store.const(p.idx) is None:
            raise I.NeedSplit([atom(p.idx, ((k, k),)) for k in is_values(vs)])
        c = st.store.const(p.idx)
        if c is None:
            return None
        off += c
    mod = info['mod']
    while True:
        if t[0] == 'arr':
            sz = mod.size_align(t[2])[0]
            k = off // sz
            off -= k * sz
            if v[0] == 'zero':
                t = t[2]
                continue
            if v[0] == 'str':
                s = v[1][1:] if v[1].startswith('c') else v[1]
                s = s[1:-1]
                s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda mm: chr(int(mm.group(1), 16)), s)
                return Lin(ord(s[k])) if k < len(s) else None
            if v[0] != 'agg' or k >= len(v[1]):
                return None
            t, v = v[1][k]
            continue
        if t[0] in ('struct', 'lit'):
            _, _, offs = mod.layout(t)
            for j, (o, ft) in enumerate(offs):
                s = mod.size_align(ft)[0]
                if o <= off < o + max(s, 1):
                    off -= o
                    if v[0] == 'zero':
                        t = ft
                    else:
                        t, v = v[1][j]
                    break
            else:
                return None
            continue
        break
    if v[0] == 'c':
        return Lin(v[1] & ((1 << t[1]) - 1)) if t[0] == 'i' else None
    if v[0] == 'zero':
        return ZERO if t[0] == 'i' else I.NULL
    if v[0] == 'null':
        return I.NULL
    if v[0] == 'g':
        o = ('g', mod.src if m.is_local_global(mod, v[1]) else '', v[1])
        if o not in m.objinfo:
            m.objinfo[o] = {'kind': 'global', 'name': v[1], 'mod': mod, 'def': mod.globals.get(v[1])}
        return I.Ptr(o)
    return None


# ------------------------------------------------------------------ iterators / maps
def iter_cmp(m, st, pred, a, b):
    r = map_iter_eq(m, st, a, b)
    return r if pred == 'eq' else c_not(r)


def map_iter_eq(m, st, a, b):
    if isinstance(a, I.Iter) and isinstance(b, I.Iter):
        if a.key == 'end' and b.key == 'end':
            return True
        if b.key == 'end':
            return c_not(found_cond(a))
        if a.key == 'end':
            return c_not(found_cond(b))
        if a == b:
            return True
    return atom(L(sym('iteq:%r:%r' % (a, b), 0, 1)), ((1, 1),))


def found_cond(it):
    if it.found is True:
        return True
    return atom(Lin(0, ((it.found, 1),)), ((1, 1),))


def iter_elem(m, st, it):
    """pointer to the pair the iterator designates"""
    oid = ('mapel', it.map, it.key)
    if oid not in m.objinfo:
        m.objinfo[oid] = {'kind': 'mapel', 'map': it.map, 'key': it.key, 'found': it.found}
    c = st.mem.get(oid)
    if c is None:
        c = st.wcells(oid)
        if isinstance(it.key, Lin):
            c[0] = it.key
            c[8] = map_object(m, st, it.map, it.key)
    return I.Ptr(oid)


def map_object(m, st, mn, key):
    """the object stored in map mn under key (non-null given it was found)"""
    vs = m.map_structs.get(mn)
    if vs is None:
        # value type from the declaring class: "...<struct>.<field>"
        vs = m.map_structs.get('*' + mn.rsplit('.', 1)[-1])
    p = sym_object(m, st, '%s[%r]' % (mn, key), vs)
    m.objinfo[p.obj]['trusted'] = True
    return p


def map_name(m, p):
    """(object, field) identity of a std::map at address p"""
    info = m.objinfo.get(p.obj, {})
    nm = info.get('sym') or str(p.obj)
    fa = field_at(m, info.get('struct') or '', p.off)
    r = nm + '.' + (fa[0] if fa else '+%d' % p.off)
    if r not in m.map_structs and fa and fa[1][0] == 'cls':
        m.map_structs[r] = map_value_struct(m, fa[1][1])
    return r


def map_value_struct(m, dem):
    mm = re.search(r'std::(?:shared|unique)_ptr<([^<>]*)>', dem)
    return mm.group(1).strip() if mm else None


# ------------------------------------------------------------------ dispatch
def smart(m, st, p):
    """value held by the smart pointer at address p"""
    return m.load(st, p, PTRT, None)


def dispatch(m, st, ins, name, args):
    dem = m.prog.dem(name)
    if not dem or dem == name:
        r = float_call(m, st, ins, name, args)
        if r != 'nomodel':
            return r
        return libc(m, st, ins, name, args)
    q = strip_templates(dem)
    if q.startswith('h264nal::') or not (q.startswith('std::') or q.startswith('__gnu_cxx::') or q.startswith('operator')):
        return 'nomodel'
    A = [m.val(st, v, t) for t, v, _ in args]
    if q.startswith('std::'):
        q2 = q[5:]
    elif q.startswith('__gnu_cxx::'):
        q2 = q[11:]
    else:
        q2 = q
    cls, _, meth = q2.rpartition('::')
    # ---- trivial forwarding
    if q2 in ('move', 'forward', 'addressof', '__addressof', 'as_const', 'launder'):
        return done(m, st, ins, A[0])
    if q2 in ('operator new', 'operator new[]') or q == 'operator new' or q == 'operator new[]':
        if A and isinstance(A[0], Lin):
            m.obs.alloc_size(m, st, ins, m.norm(st, A[0], 64, False))
        oid = heap_id(m, st, ins)
        return done(m, st, ins, m.alloc(st, oid, kind='heap'))
    if q in ('operator delete', 'operator delete[]'):
        return done(m, st, ins)
    # ---- smart pointers
    if cls in ('unique_ptr', 'shared_ptr', '__shared_ptr', '__shared_ptr_access', '__uniq_ptr_impl'):
        return smart_method(m, st, ins, cls, meth, A, args, dem)
    if q2 in ('make_unique', 'make_shared'):
        T = tmpl_arg(dem, 'std::' + q2)
        if T.endswith('[]') and len(A) == 2:
            n = load_quiet_int(m, st, A[1], ins)
            if n is not None:
                m.obs.alloc_size(m, st, ins, n)
        return construct(m, st, ins, T, A)
    if q2 in ('operator==', 'operator!=') and len(A) == 2:
        d0 = dem.split('(', 1)[1] if '(' in dem else ''
        if '_ptr<' in dem and 'normal_iterator' not in d0 and 'Rb_tree' not in d0:
            a = smart(m, st, A[0])
            b = I.NULL if 'nullptr' in d0 else smart(m, st, A[1])
            return done(m, st, ins, m.ptrcmp(st, 'eq' if q2.endswith('==') else 'ne', a, b))
        if 'Rb_tree' in d0:
            a = m.load(st, A[0], PTRT, ins); b = m.load(st, A[1], PTRT, ins)
            r = map_iter_eq(m, st, a, b)
            return done(m, st, ins, r if q2.endswith('==') else c_not(r))
    # ---- iterators over vectors
    if cls == '__normal_iterator' or (q.startswith('__gnu_cxx::operator') and 'normal_iterator' in dem):
        return normal_iter(m, st, ins, q2, meth, A, dem)
    if cls == 'reverse_iterator' or (q2 in ('operator==', 'operator!=') and 'reverse_iterator<' in dem.split('(', 1)[-1]):
        return reverse_iter(m, st, ins, q2, meth, A, args, dem)
    if cls in ('_Rb_tree_iterator', '_Rb_tree_const_iterator'):
        if meth in ('operator@arrow', 'operator*'):
            it = m.load(st, A[0], PTRT, ins)
            if isinstance(it, I.Iter):
                m.obs.iter_deref(m, st, it, ins)
                return done(m, st, ins, iter_elem(m, st, it))
            return done(m, st, ins, I.Unk('iter'))
        if meth in ('_Rb_tree_const_iterator', '_Rb_tree_iterator') and len(A) == 2:
            v = m.load(st, A[1], PTRT, ins) if isinstance(A[1], I.Ptr) else A[1]
            m.storev(st, A[0], v, ins)
            return done(m, st, ins)
    if cls == 'map':
        return map_method(m, st, ins, meth, A, dem)
    if cls == 'vector':
        return vector_method(m, st, ins, meth, A, args, dem)
    if q2 in ('begin', 'end', 'cbegin', 'cend', 'size', 'data') and 'std::vector' in dem:
        return vector_method(m, st, ins, q2.lstrip('c') if q2[0] == 'c' else q2, A, args, dem)
    if meth.startswith('~'):
        return done(m, st, ins)
    if q2 in ('min', 'max') and len(A) == 2:
        return 'nomodel'
    if q2 in ('swap',) and len(A) == 2 and ('_ptr<' in dem):
        a, b = smart(m, st, A[0]), smart(m, st, A[1])
        m.storev(st, A[0], b); m.storev(st, A[1], a)
        return done(m, st, ins)
    return 'nomodel'


def heap_id(m, st, ins):
    base = ('h', st.top.fn.name, ins.res, tuple((f.fn.name, f.block, f.idx) for f in st.frames[:-1]))
    k = 0
    while base + (k,) in st.mem:
        k += 1
        if k > 8:
            # summarise: forget the oldest
            k = 0
            break
    return base + (k,)


def load_quiet_int(m, st, v, ins):
    if isinstance(v, I.Ptr):
        c = st.mem.get(v.obj, {}).get(v.off)
        v = c if isinstance(c, Lin) else None
    return m.norm(st, v, 64, False) if isinstance(v, Lin) else None


def construct(m, st, ins, T, A):
    """make_unique/make_shared<T>(args): A[0] is the result slot"""
    oid = heap_id2(m, st, ins, T)
    p = m.alloc(st, oid, kind='heap', struct=T, zero=True)
    last = T.split('::')[-1]
    cands = ctor_candidates(m, T)
    slot = A[0]
    n = len(A) - 1
    for fn in cands:
        fn.parse()
        if len(fn.params) == n + 1:
            return m.enter(st, ins, fn, [p] + A[1:], dest=None, hook=('setptr', slot, p, ins.res))
    m.storev(st, slot, p, ins)
    return done(m, st, ins)


def heap_id2(m, st, ins, T):
    base = ('h', st.top.fn.name, T, st.top.block, st.top.idx, tuple((f.fn.name, f.block, f.idx) for f in st.frames[:-1]))
    return base


_ctor_cache = {}


def ctor_candidates(m, T):
    k = (id(m.prog), T)
    if k not in _ctor_cache:
        out = []
        last = T.split('::')[-1]
        pre = T + '::' + last + '('
        for n, d in m.prog.demangled.items():
            if d.startswith(pre):
                fn = m.prog.fn.get(n)
                if fn is not None and ('C2' in n or 'C1' in n):
                    out.append(fn)
        out.sort(key=lambda f: 'C2' not in f.name)
        _ctor_cache[k] = out
    return _ctor_cache[k]


def run_hook(m, st, hook, v):
    if hook[0] == 'setptr':
        _, slot, p, res = hook
        m.storev(st, slot, p)
        if res is not None:
            st.top.regs[res] = I.Unk('void')


def smart_method(m, st, ins, cls, meth, A, args, dem):
    this = A[0] if A else None
    if meth in ('operator@arrow', 'get', '_M_get', '_M_ptr', 'operator*'):
        v = smart(m, st, this)
        if meth == '_M_ptr':
            return done(m, st, ins, this)
        return done(m, st, ins, v)
    if meth == 'operator bool':
        v = smart(m, st, this)
        return done(m, st, ins, m.nonnull(st, v))
    if meth in ('unique_ptr', 'shared_ptr', '__shared_ptr'):
        params = dem[dem.rfind('(') + 1:] if '(' in dem else ''
        body = dem.split('::' + meth, 1)[-1]
        if len(A) == 1:
            m.storev(st, this, I.NULL, ins)
        elif 'nullptr' in dem.split('(', 1)[1] or (isinstance(A[1], I.Ptr) and A[1].obj is None):
            m.storev(st, this, I.NULL, ins)
        elif '&&)' in dem or '&&,' in dem:
            v = smart(m, st, A[1])
            m.storev(st, this, v, ins)
            m.storev(st, A[1], I.NULL, ins)
        elif '&)' in dem or '&,' in dem:
            v = smart(m, st, A[1])
            m.storev(st, this, v, ins)
        else:
            m.storev(st, this, A[1], ins)
        return done(m, st, ins)
    if meth.startswith('~'):
        return done(m, st, ins)
    if meth == 'operator=':
        if 'nullptr' in dem.split('(', 1)[1]:
            m.storev(st, this, I.NULL, ins)
        else:
            v = smart(m, st, A[1])
            m.storev(st, this, v, ins)
            if '&&)' in dem and this != A[1]:
                m.storev(st, A[1], I.NULL, ins)
        return done(m, st, ins, this)
    if meth == 'reset':
        m.storev(st, this, A[1] if len(A) > 1 else I.NULL, ins)
        return done(m, st, ins)
    if meth == 'release':
        v = smart(m, st, this)
        m.storev(st, this, I.NULL, ins)
        return done(m, st, ins, v)
    if meth == 'swap':
        a, b = smart(m, st, A[0]), smart(m, st, A[1])
        m.storev(st, A[0], b); m.storev(st, A[1], a)
        return done(m, st, ins)
    if meth == 'use_count':
        return done(m, st, ins, m.unknown(st, ins.ty, ins, 'use_count'))
    return 'nomodel'


def normal_iter(m, st, ins, q2, meth, A, dem):
    if meth in ('operator*', 'base', 'operator@arrow'):
        if meth == 'base':
            return done(m, st, ins, A[0])
        v = m.load(st, A[0], PTRT, ins)
        return done(m, st, ins, v)
    if meth == 'operator++':
        v = m.load(st, A[0], PTRT, ins)
        if isinstance(v, I.Ptr):
            m.storev(st, A[0], I.Ptr(v.obj, v.idx.addc(1), v.off, v.nn), ins)
            if len(A) > 1:
                return done(m, st, ins, v)
        return done(m, st, ins, A[0])
    if meth == 'operator--':
        v = m.load(st, A[0], PTRT, ins)
        if isinstance(v, I.Ptr):
            m.storev(st, A[0], I.Ptr(v.obj, v.idx.addc(-1), v.off, v.nn), ins)
        return done(m, st, ins, A[0])
    if meth == 'operator+' or meth == 'operator-':
        v = m.load(st, A[0], PTRT, ins)
        if isinstance(v, I.Ptr) and len(A) == 2 and not isinstance(A[1], I.Ptr):
            d = m.int(st, A[1])
            return done(m, st, ins, I.Ptr(v.obj, v.idx.add(d, 1 if meth == 'operator+' else -1), v.off, v.nn))
        if isinstance(v, I.Ptr) and len(A) == 2:
            w = m.load(st, A[1], PTRT, ins)
            if isinstance(w, I.Ptr) and w.obj == v.obj:
                return done(m, st, ins, v.idx.add(w.idx, -1))
        return 'nomodel'
    if meth == '__normal_iterator':
        if len(A) == 2 and isinstance(A[1], I.Ptr):
            v = m.load(st, A[1], PTRT, ins)
            m.storev(st, A[0], v, ins)
        return done(m, st, ins)
    if q2.endswith('operator!=') or q2.endswith('operator==') or q2.endswith('operator@lt'):
        a = m.load(st, A[0], PTRT, ins); b = m.load(st, A[1], PTRT, ins)
        pred = 'ne' if q2.endswith('!=') else ('eq' if q2.endswith('==') else 'ult')
        return done(m, st, ins, m.ptrcmp(st, pred, a, b))
    return 'nomodel'


def reverse_iter(m, st, ins, q2, meth, A, args, dem):
    if q2 in ('operator==', 'operator!='):
        a = m.load(st, A[0], PTRT, ins); b = m.load(st, A[1], PTRT, ins)
        return done(m, st, ins, m.ptrcmp(st, 'eq' if q2.endswith('==') else 'ne', a, b))
    if meth == 'reverse_iterator':
        if len(A) == 2:
            v = m.load(st, A[1], PTRT, ins) if isinstance(A[1], I.Ptr) and not (m.objinfo.get(A[1].obj, {}).get('kind') == 'elems') else A[1]
            m.storev(st, A[0], v, ins)
        return done(m, st, ins)
    v = m.load(st, A[0], PTRT, ins)
    if not isinstance(v, I.Ptr) or v.obj is None:
        return 'nomodel'
    if meth in ('operator*', 'operator@arrow'):
        return done(m, st, ins, I.Ptr(v.obj, v.idx.addc(-1), v.off, v.nn))
    if meth in ('operator++', 'operator--') and len(A) == 1:
        m.storev(st, A[0], I.Ptr(v.obj, v.idx.addc(-1 if meth == 'operator++' else 1), v.off, v.nn), ins)
        return done(m, st, ins, A[0])
    return 'nomodel'


def map_method(m, st, ins, meth, A, dem):
    this = A[0]
    if not isinstance(this, I.Ptr):
        return 'nomodel'
    mn = map_name(m, this)
    # sret-style iterator? find returns ptr by value
    if meth == 'find':
        k = m.load(st, A[1], ('i', 32), ins)
        r = m.obs.map_find(m, st, ins, mn, k, dem)
        f = sym('found(%s,%r)' % (mn, k), 0, 1)
        return done(m, st, ins, I.Iter(mn, k, f.id))
    if meth in ('end', 'cend'):
        return done(m, st, ins, I.Iter(mn, 'end', True))
    if meth in ('begin', 'cbegin'):
        return done(m, st, ins, I.Iter(mn, 'begin', sym('nonempty(%s)' % mn, 0, 1).id))
    if meth == 'count':
        k = m.load(st, A[1], ('i', 32), ins)
        m.obs.map_find(m, st, ins, mn, k, dem)
        return done(m, st, ins, L(sym('found(%s,%r)' % (mn, k), 0, 1)))
    if meth in ('operator[]', 'at'):
        k = m.load(st, A[1], ('i', 32), ins)
        it = I.Iter(mn, k, sym('found(%s,%r)' % (mn, k), 0, 1).id)
        m.obs.map_index(m, st, ins, mn, k, meth, dem)
        p = iter_elem(m, st, it)
        return done(m, st, ins, p.plus(8))
    if meth in ('insert', 'emplace', 'insert_or_assign', 'erase', 'clear', 'try_emplace'):
        m.obs.map_mutate(m, st, ins, mn, meth, A, dem)
        return done(m, st, ins, m.unknown(st, ins.ty, ins, 'map') if ins.res else None)
    if meth in ('size', 'empty'):
        return done(m, st, ins, m.unknown(st, ins.ty, ins, 'mapsize'))
    if meth in ('map', '~map'):
        return done(m, st, ins)
    return 'nomodel'


def vector_method(m, st, ins, meth, A, args, dem):
    if meth in ('rbegin', 'rend', 'crbegin', 'crend') and len(A) == 2 and isinstance(A[1], I.Ptr) and A[1].obj is not None:
        v = get_vec(m, st, A[1])
        if v is None:
            return 'nomodel'
        m.storev(st, A[0], elems_ptr(m, A[1], v.len if 'begin' in meth else ZERO), ins)
        return done(m, st, ins)
    this = A[0]
    if not isinstance(this, I.Ptr):
        return 'nomodel'
    if this.obj is None:
        m.obs.deref(m, st, this, ins, 'vec')
        return 'nomodel'
    et = tmpl_arg(dem, 'std::vector')
    info = m.objinfo.get(this.obj, {})
    if meth == 'vector':
        body = dem[dem.find('::vector(') if '::vector(' in dem else 0:]
        if len(A) == 1:
            set_vec(m, st, this, I.Vec(ZERO))
        elif '&&' in body:
            v = get_vec(m, st, A[1]) or I.Vec(ZERO)
            set_vec(m, st, this, v)
            set_vec(m, st, A[1], I.Vec(ZERO))
        elif 'std::vector<' in body[8:] and '&' in body:
            v = get_vec(m, st, A[1]) or I.Vec(ZERO)
            set_vec(m, st, this, v)
        elif len(A) >= 2 and isinstance(A[1], (Lin,)):
            n = m.norm(st, A[1], 64, False)
            set_vec(m, st, this, I.Vec(n, ((('fill',), n),) if n != ZERO else ()))
            m.obs.alloc_size(m, st, ins, n)
        else:
            set_vec(m, st, this, I.Vec(L(sym('veclen:%s' % ins.text, 0, 1 << 48)), (), None, 'v:%s' % ins.text))
        return done(m, st, ins)
    if meth.startswith('~'):
        return done(m, st, ins)
    v = get_vec(m, st, this)
    if v is None:
        v = I.Vec(L(sym('veclen?%r' % (this,), 0, 1 << 48)), (), None, 'v?%r' % (this,))
    if meth == 'size':
        return done(m, st, ins, v.len)
    if meth == 'empty':
        return done(m, st, ins, atom(v.len, ((0, 0),)))
    if meth in ('push_back', 'emplace_back'):
        m.obs.grow(m, st, ins, this, v)
        if len(A) > 1:
            x = load_ref(m, st, A[1], et, ins)
        else:
            x = I.Vec(ZERO) if et and et.startswith('std::vector<') else I.Unk('default')
        set_vec(m, st, this, vec_push(m, st, v, x))
        if len(A) > 1 and isinstance(x, I.Ptr) and '&&' in dem and et and '_ptr<' in et:
            m.storev(st, A[1], I.NULL, ins)
        if ins.res is not None:
            return done(m, st, ins, elems_ptr(m, this, v.len))
        return done(m, st, ins)
    if meth in ('operator[]', 'at'):
        i = m.norm(st, m.int(st, A[1]), 64, False)
        p = elems_ptr(m, this, i)
        if meth == 'at':
            pass
        m.obs.index_addr(m, st, p, v, ins)
        return done(m, st, ins, p)
    if meth == 'back':
        m.obs.index_addr(m, st, elems_ptr(m, this, v.len.addc(-1)), v, ins)
        return done(m, st, ins, elems_ptr(m, this, v.len.addc(-1)))
    if meth == 'front':
        m.obs.index_addr(m, st, elems_ptr(m, this, ZERO), v, ins)
        return done(m, st, ins, elems_ptr(m, this, ZERO))
    if meth in ('data', 'begin', 'cbegin'):
        p = elems_ptr(m, this, ZERO)
        if et in ('unsigned char', 'char', 'signed char'):
            m.objinfo[p.obj]['esize'] = 1
        return done(m, st, ins, p)
    if meth in ('end', 'cend'):
        return done(m, st, ins, elems_ptr(m, this, v.len))
    if meth == 'clear':
        set_vec(m, st, this, I.Vec(ZERO))
        return done(m, st, ins)
    if meth == 'resize':
        n = m.norm(st, m.int(st, A[1]), 64, False)
        m.obs.alloc_size(m, st, ins, n)
        set_vec(m, st, this, I.Vec(n, add_item(v.items, ('fill',), n), None, v.sname))
        return done(m, st, ins)
    if meth in ('assign',) and len(A) == 3:
        n = m.norm(st, m.int(st, A[1]), 64, False)
        m.obs.alloc_size(m, st, ins, n)
        set_vec(m, st, this, I.Vec(n, ((('fill',), n),)))
        return done(m, st, ins)
    if meth == 'reserve':
        n = m.norm(st, m.int(st, A[1]), 64, False)
        m.obs.alloc_size(m, st, ins, n)
        return done(m, st, ins)
    if meth == 'operator=':
        w = get_vec(m, st, A[1]) or I.Vec(L(sym('veclen:%s' % ins.text, 0, 1 << 48)))
        set_vec(m, st, this, w)
        if '&&)' in dem:
            set_vec(m, st, A[1], I.Vec(ZERO))
        return done(m, st, ins, this)
    if meth in ('capacity', 'max_size'):
        return done(m, st, ins, m.unknown(st, ins.ty, ins, meth))
    if meth == 'insert':
        set_vec(m, st, this, I.Vec(L(sym('veclen:%s' % ins.text, 0, 1 << 48)), add_item(v.items, ('insert',), ONE), None, v.sname))
        return done(m, st, ins, I.Unk('it'))
    if meth == 'pop_back':
        set_vec(m, st, this, I.Vec(v.len.addc(-1), v.items, None, v.sname))
        return done(m, st, ins)
    return 'nomodel'


def load_ref(m, st, p, et, ins):
    """value of the element referenced by p (of element type et)"""
    if et is None:
        return I.Unk('ref')
    sizes = {'unsigned int': 32, 'int': 32, 'unsigned long': 64, 'long': 64, 'unsigned char': 8, 'signed char': 8,
             'unsigned short': 16, 'short': 16, 'bool': 8, 'unsigned long long': 64, 'char': 8}
    if et in sizes:
        return m.load(st, p, ('i', sizes[et]), ins)
    if et.startswith('std::unique_ptr') or et.startswith('std::shared_ptr') or et.endswith('*'):
        return m.load(st, p, PTRT, ins)
    if et.startswith('std::vector'):
        v = get_vec(m, st, p)
        return v if v is not None else I.Unk('vec')
    if isinstance(p, I.Ptr) and p.obj is not None:
        c = st.mem.get(p.obj, {})
        return ('struct', et, tuple(sorted((k - p.off, x) for k, x in c.items() if isinstance(k, int) and k >= p.off)))
    return I.Unk('ref')


def byte_swap(v, n):
    """value whose bytes are n named input bytes, reversed"""
    if not isinstance(v, Lin):
        return None
    if not v.t:
        return Lin(int.from_bytes((v.c & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'), 'big'))
    if v.c:
        return None
    t = []
    for i, q in v.t:
        j = next((j for j in range(n) if q == 1 << (8 * j)), None)
        y = Sym.table[i]
        if j is None or y.lo < 0 or y.hi > 255:
            return None
        t.append((i, 1 << (8 * (n - 1 - j))))
    return Lin(0, tuple(sorted(t)))


def libc(m, st, ins, name, args):
    if name in ('memset', 'memcpy', 'memmove'):
        return 'nomodel'
    if name == '__assert_fail' or name in ('abort', 'exit', '_Exit'):
        m.obs.abort(m, st, ins, name)
        return 'stop'
    if name in ('fprintf', 'printf', 'snprintf', 'fputs', 'putchar', 'puts', 'fputc', 'fwrite', 'putc'):
        m.obs.output(m, st, ins, name, [m.val(st, v, t) for t, v, _ in args], args)
        return done(m, st, ins, m.unknown(st, ins.ty, ins, name) if ins.res else None)
    if name == 'htonl' or name == 'ntohl':
        v = byte_swap(m.val(st, args[0][1], args[0][0]), 4)
        if v is not None:
            return done(m, st, ins, v)
        return done(m, st, ins, m.unknown(st, ins.ty, ins, name))
    return 'nomodel'


FLOATFN = re.compile(r'^(?:llvm\.)?(log2|ceil|floor|log|log10|sqrt|round|trunc|pow|exp2)(?:f|l|\.f(?:32|64))?$')


def float_call(m, st, ins, name, args):
    if name.startswith('llvm.fmuladd'):
        A = [m.val(st, v, t) for t, v, _ in args]
        if all(isinstance(a, FV) for a in A):
            return done(m, st, ins, fv('add', fv('mul', A[0], A[1]), A[2]))
    g = FLOATFN.match(name)
    if not g:
        return 'nomodel'
    A = [m.val(st, v, t) for t, v, _ in args]
    if all(isinstance(a, FV) for a in A):
        return done(m, st, ins, fv(g.group(1), *A))
    return done(m, st, ins, I.Unk('f:' + name))


def intrinsic(m, st, ins, name, args):
    A = [m.val(st, v, t) for t, v, _ in args]
    r = float_call(m, st, ins, name, args)
    if r != 'nomodel':
        return r
    if name.startswith('llvm.memset'):
        p = A[0]
        if isinstance(p, I.Ptr) and p.obj is not None:
            n = st.store.const(m.int(st, A[2]))
            c = st.wcells(p.obj)
            for k in [k for k in c if isinstance(k, int) and (n is None or p.off <= k < p.off + n)]:
                del c[k]
            z = st.store.const(m.int(st, A[1])) == 0
            if z and p.idx == ZERO and not m.objinfo.get(p.obj, {}).get('sym'):
                m.objinfo[p.obj] = dict(m.objinfo.get(p.obj, {}), zero=True)
        return done(m, st, ins)
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        d, s = A[0], A[1]
        n = st.store.const(m.int(st, A[2]))
        m.obs.memcpy(m, st, ins, d, s, m.int(st, A[2]))
        if isinstance(d, I.Ptr) and d.obj is not None and isinstance(s, I.Ptr) and s.obj is not None and n is not None:
            dinfo = m.objinfo.get(d.obj, {})
            if dinfo.get('array'):
                return done(m, st, ins)
            c = st.wcells(d.obj)
            for k in [k for k in c if isinstance(k, int) and d.off <= k < d.off + n]:
                del c[k]
            si = m.objinfo.get(s.obj, {})
            src = st.mem.get(s.obj, {})
            if si.get('kind') == 'raw':
                v = m.obs.raw_copy(m, st, s, n, ins, si)
                if v is not None:
                    c[d.off] = v
                return done(m, st, ins)
            if si.get('kind') == 'elems':
                fs = m.obs.elem_fields(m, st, s, n)
                for o, w in fs:
                    c[d.off + o] = m.load(st, s.plus(o), ('i', w), ins)
                if not fs:
                    st.aux['_imprecise'] = 1
                return done(m, st, ins)
            if si.get('kind') == 'global':
                g = parse_global(si)
                if g:
                    fill_from_const(m, st, c, d.off, g[0], g[1], si['mod'])
            elif si.get('sym') is not None:
                # lazily copy every scalar member
                for off in range(s.off, s.off + n):
                    fa = field_at(m, si.get('struct') or '', off)
                    if fa and fa[2] and not (off > s.off and field_at(m, si.get('struct') or '', off - 1) and field_at(m, si.get('struct') or '', off - 1)[0] == fa[0]):
                        td = fa[1]
                        w = {'u': lambda: td[1], 's': lambda: td[1], 'bool': lambda: 8}.get(td[0], lambda: 64)()
                        c[d.off + off - s.off] = m.load(st, I.Ptr(s.obj, s.idx, off, s.nn), ('i', w), ins)
            else:
                for k, v in src.items():
                    if isinstance(k, int) and s.off <= k < s.off + n:
                        c[k - s.off + d.off] = v
                if si.get('zero'):
                    m.objinfo[d.obj] = dict(m.objinfo.get(d.obj, {}), zero=True)
        return done(m, st, ins)
    if name.startswith('llvm.umax') or name.startswith('llvm.umin') or name.startswith('llvm.smax') or name.startswith('llvm.smin'):
        w = ins.ty[1]
        c = m.cmp(st, name[5] + ('gt' if 'max' in name else 'lt'), A[0], A[1], w)
        d = st.store.decide(c)
        if d is None:
            raise I.NeedSplit([c, c_not(c)])
        return done(m, st, ins, A[0] if d else A[1])
    if name.startswith('llvm.ctlz.i') and isinstance(A[0], Lin):
        w = ins.ty[1]
        x = m.norm(st, A[0], w, False)
        lo, hi = st.store.rng(x)
        if 0 < lo and hi < 1 << w and lo.bit_length() == hi.bit_length():
            return done(m, st, ins, Lin(w - lo.bit_length()))
        if 0 <= lo and hi < 1 << w:
            k = hi.bit_length() - 1
            raise I.NeedSplit([atom(x, ((1 << k, hi),)), atom(x, ((lo, (1 << k) - 1),))] if k > 0 else [atom(x, ((1, 1),)), atom(x, ((0, 0),))])
    if name.startswith('llvm.bswap.i'):
        v = byte_swap(A[0], int(name[12:]) // 8)
        if v is not None:
            return done(m, st, ins, v)
    if name in ('llvm.trap', 'llvm.debugtrap', 'llvm.ubsantrap'):
        m.obs.abort(m, st, ins, name)
        return 'stop'
    if ins.res is not None:
        st.top.regs[ins.res] = m.unknown(st, ins.ty, ins, name)
    return None


def fill_from_const(m, st, cells, off, t, v, mod):
    if t[0] == 'arr':
        sz = mod.size_align(t[2])[0]
        if v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                fill_from_const(m, st, cells, off + i * sz, et, ev, mod)
        elif v[0] == 'zero':
            for i in range(min(t[1], 4096)):
                fill_from_const(m, st, cells, off + i * sz, t[2], v, mod)
        return
    if t[0] in ('struct', 'lit'):
        _, _, offs = mod.layout(t)
        for j, (o, ft) in enumerate(offs):
            fill_from_const(m, st, cells, off + o, ft, v if v[0] == 'zero' else v[1][j][1], mod)
        return
    if v[0] == 'c':
        cells[off] = Lin(v[1] & ((1 << t[1]) - 1))
    elif v[0] == 'zero':
        cells[off] = ZERO if t[0] == 'i' else I.NULL
    elif v[0] == 'null':
        cells[off] = I.NULL
    elif v[0] == 'g':
        o = ('g', mod.src if m.is_local_global(mod, v[1]) else '', v[1])
        if o not in m.objinfo:
            m.objinfo[o] = {'kind': 'global', 'name': v[1], 'mod': mod, 'def': mod.globals.get(v[1])}
        cells[off] = I.Ptr(o)
