"""Assumed contracts on the C and C++ runtime (listed in every evidence file that uses them)."""
import re, math
from term import *
from exec import *

def new_region(ex, st, name, size, info=None):
    ex.allocs += 1
    d = {'uninit': True, 'local': True, 'heap': True}; d.update(info or {})
    return Region(f'{name}.{ex.allocs}', 'obj', size=size, info=d)

SIZES = {'int': 4, 'unsigned int': 4, 'float': 4, 'double': 8, 'long': 8, 'unsigned long': 8, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'bool': 1, 'long long': 8}
def elem_type(ex, dem):
    """first template argument of std::vector<...> and its size"""
    k = dem.find('vector<')
    d = 0; j = k + 7; s0 = j
    while j < len(dem):
        c = dem[j]
        if c == '<': d += 1
        elif c == '>':
            if d == 0: break
            d -= 1
        elif c == ',' and d == 0: break
        j += 1
    t = dem[s0:j].strip()
    t = re.sub(r'^const |\bconst$', '', t).strip()
    return t, type_size(ex, t)
def type_size(ex, t):
    t = t.replace(' const', '').replace('const ', '').strip()
    if t.endswith('*'): return 8
    if t in SIZES: return SIZES[t]
    if t.startswith('std::unique_ptr<'): return 8
    if t.startswith('std::__cxx11::basic_string'): return 32
    if t.startswith('std::vector<'): return 24
    for p in ('struct.', 'class.', 'union.'):
        for suffix in ('',):
            if p + t in ex.mod.structs: return ex.mod.structs[p + t][0]
    return None

def lay_type(ex, t):
    for p in ('struct.', 'class.', 'union.'):
        if p + t in ex.mod.structs: return ty(ex.mod.structs[p + t][1])
    raise Unsup(f'layout of {t}')
def vec_storage(ex, st, dem, name='vec', size=None):
    t, n = elem_type(ex, dem)
    if n is None: raise Unsup(f'element size of {t}')
    ex.allocs += 1
    if size is not None and (size < 256 if n in (1, 2, 4, 8) else size <= 4096):
        r = Region(f'{name}.{ex.allocs}', 'obj', size=size, info={'local': True, 'heap': True, 'stride': n, 'vec': True}, init=vec_init)
        return r, n
    info = {'uninit': True, 'local': True, 'heap': True, 'stride': n}
    if size is not None:
        info['bound'] = lambda co, k: band(sle(Z64, co[-1]), sle(add(co[-1], const(k, 64) if isinstance(k, int) else k), const(size, 64)))
    return Region(f'{name}.{ex.allocs}', 'arr', es=n if n in (2, 4, 8) else None, info=info), n   # byte vectors may hold wider elements
def vec_init(ex, st, r, o, n, t):
    """elements are value-initialised by vector(n)/resize"""
    return NULL if t is not None and t.k == 'p' else const(0, 8 * n)
PT = ty('ptr')
def vget(ex, st, v):
    return [ex.load(st, padd(v, const(8 * k, 64)), PT) for k in range(3)]
def vset(ex, st, v, b, e, c):
    for k, x in enumerate((b, e, c)): ex.store(st, padd(v, const(8 * k, 64)), x, PT)

def c_vec_push(ex, st, a, i, dem):
    """push_back / emplace_back: appends one element; storage identity is kept (iterators are not modelled)"""
    v = a[0]; b, e, c = vget(ex, st, v)
    t, n = elem_type(ex, dem)
    if isinstance(b, P) and b.r is NULLR:
        r, n = vec_storage(ex, st, dem, size=0)
        b = P(r); e = P(r)
    elif not (isinstance(b, P) and isinstance(e, P) and e.r is b.r):
        # storage not yet allocated on some paths: unify with the allocated alternative
        alts = [q for _, q in pcases(b) if q.r is not NULLR]
        if len(set(q.r for q in alts)) == 1:
            r = alts[0].r
            off = Z64
            for cnd, q in pcases(e): off = ite(cnd, q.o, off)
            b = P(r); e = P(r, off)
        else: raise Unsup('vector storage')
    if e.r.kind == 'obj':
        hi = ivs(e.o)[1]
        if hi > 4096: raise Unsup('vector growth')
        e.r.size = max(e.r.size or 0, hi + n)
    if n in (1, 2, 4, 8):
        x = ex.load(st, a[1], PT if t.endswith('*') else ty(f'i{8*n}'))
        ex.store(st, e, x, PT if t.endswith('*') else ty(f'i{8*n}'), i.get('ln'))
    elif t.startswith('std::__cxx11::basic_string') and e.r.kind == 'obj':
        src = ex.load(st, a[1], PT) if 'char const*' in dem[dem.find('emplace_back'):] and 'emplace_back' in dem else a[1]
        tok = src.r.info.get('tok') if isinstance(src, P) and src.r.info.get('tok') is not None and src.o is Z64 else st.gh.get(skey(src))
        if tok is None: raise Unsup(f'string of unknown contents put into a vector {src} {dem}')
        st.ghost(skey(e), tok)
    elif e.r.kind == 'obj':
        ls = list(leaves(lay_type(ex, t)))
        for o, lt in ls: ex.store(st, padd(e, const(o, 64)), ex.load(st, padd(a[1], const(o, 64)), lt), lt, i.get('ln'))
    else:
        raise Unsup(f'push_back of {t}')
    e2 = P(e.r, add(e.o, const(n, 64)))
    vset(ex, st, v, b, e2, e2)
    return e
def c_vec_ctor_n(ex, st, a, i, dem):
    """vector(n): n value-initialised elements"""
    t, n = elem_type(ex, dem)
    if n is None: raise Unsup(f'vector of {t}')
    m = scale(zext(a[1], 64), n)
    r, n = vec_storage(ex, st, dem, size=m.k if isc(m) else None)
    r.info['uninit'] = False; r.info['zero'] = True
    vset(ex, st, a[0], P(r), P(r, m), P(r, m))
    return None
def c_vec_copy(ex, st, a, i, dem):
    """vector(const vector &): a vector of the same length with equal elements"""
    t, n = elem_type(ex, dem); b, e, c = vget(ex, st, a[1])
    if isinstance(b, P) and b.r is NULLR: vset(ex, st, a[0], NULL, NULL, NULL); return None
    if n not in (1, 2, 4, 8) or not (isinstance(b, P) and isinstance(e, P) and b.r is e.r and b.r.kind == 'obj'): raise Unsup(f'copy of {dem}')
    m = sub(e.o, b.o)
    if not isc(m) or m.k % n or m.k >= 256: raise Unsup('copy of a vector of unknown length')
    r, n = vec_storage(ex, st, dem, size=m.k); lt = PT if t.endswith('*') else ty(f'i{8*n}')
    for o in range(0, m.k, n): ex.store(st, P(r, const(o, 64)), ex.load(st, padd(b, const(o, 64)), lt), lt, i.get('ln'))
    vset(ex, st, a[0], P(r), P(r, m), P(r, m))
    return None
def c_vec_resize(ex, st, a, i, dem):
    v = a[0]; b, e, c = vget(ex, st, v)
    t, n = elem_type(ex, dem)
    if n is None: raise Unsup('resize elem')
    m = scale(a[1], n)
    if isinstance(b, P) and b.r is NULLR:
        if isc(m) and m.k == 0: return None
        r, n = vec_storage(ex, st, dem, size=m.k if isc(m) else None); r.info['uninit'] = False; r.info['zero'] = True
        vset(ex, st, v, P(r), P(r, m), P(r, m)); return None
    if isinstance(b, P) and isinstance(e, P):
        # grown part is zero: only supported when nothing was there or when shrinking/growing zero storage
        if b.r.info.get('zero') or ex.must(st, sle(m, sub(e.o, b.o))):
            vset(ex, st, v, b, P(b.r, add(b.o, m)), P(b.r, add(b.o, m))); return None
        k = fresh('rs', 64, 0, 1 << 46)
        x = ex.wrs(st, b.r); es = b.r.es
        cnt = udiv(sub(m, sub(e.o, b.o)), const(es, 64)) if es > 1 else sub(m, sub(e.o, b.o))
        x.log = x.log + (W(((k, cnt),), slt(sub(e.o, b.o), m), add(e.o, scale(k, es)), es, (const(0, es * 8) if not t.endswith('*') else NULL,), i.get('ln')),)
        vset(ex, st, v, b, P(b.r, add(b.o, m)), P(b.r, add(b.o, m))); return None
    raise Unsup('resize')
def c_noop(ex, st, a, i, dem): return None
def c_ret0(ex, st, a, i, dem): return a[0] if a else None

def c_sort(ex, st, a, i, dem):
    """std::sort(first, last): a sorted permutation (ascending by the element's own operator<), as a sorting network over the listed elements"""
    b, e = a[0], a[1]
    if len(a) > 2 and not (isinstance(a[2], P) and False): raise Unsup('sort with a comparator')
    if not (isinstance(b, P) and isinstance(e, P) and b.r is e.r): raise Unsup('sort range')
    m = re.search(r'__normal_iterator<(.*?)\*,', dem)
    t = m.group(1).strip() if m else None
    n = type_size(ex, t) if t else None
    d = sub(e.o, b.o)
    if n is None or not isc(d): raise Unsup('sort of unknown extent')
    k = d.k // n
    if k <= 1: return None
    ex.assumptions.add('std::sort yields an ascending permutation of its range')
    lt_fn = None
    if t in SIZES: fields = [(0, ty(f'i{8*n}'))]
    else:
        fields = list(leaves(lay_type(ex, t)))
        c = [f for f, x in ex.mod.fns.items() if x['dem'].startswith(f'{t}::operator<(')]
        if not c: raise Unsup(f'operator< of {t}')
        lt_fn = c[0]
    at = lambda j: padd(b, const(j * n, 64))
    def less(x, y):
        if lt_fn is None: return slt(ex.load(st, x, fields[0][1]), ex.load(st, y, fields[0][1])) if 'unsigned' not in t else ult(ex.load(st, x, fields[0][1]), ex.load(st, y, fields[0][1]))
        outs, exc = ex.call(lt_fn, [x, y], st.copy())
        if len(outs) != 1: raise Unsup('operator<')
        return outs[0][1]
    for r in range(k - 1):
        for j in range(k - 1 - r):
            c = less(at(j + 1), at(j))
            for o, lt in fields:
                p, q = padd(at(j), const(o, 64)), padd(at(j + 1), const(o, 64))
                x, y = ex.load(st, p, lt), ex.load(st, q, lt)
                ex.store(st, p, vite(c, y, x), lt, i.get('ln')); ex.store(st, q, vite(c, x, y), lt, i.get('ln'))
    return None
def c_snprintf(ex, st, a, i, dem):
    """snprintf: the buffer gets unspecified text that begins like the format string"""
    p = a[0]
    if isinstance(p, P) and p.r is NULLR: return fresh('len', 32, 0, 1 << 20)
    fmt = a[2]; c = None
    if isinstance(fmt, P) and fmt.r.kind == 'glob' and isc(fmt.o):
        try:
            x = ex.ginit(fmt.r).get(scval(fmt.o)); c = const(int(x[1][2]) & 255, 8) if x is not None and x[1][0] == 'c' else None
        except Exception: c = None
    if c is None or c.k == 0x25: c = fresh('chr', 8)
    if not (isinstance(p, P) and isc(p.o)): raise Unsup('snprintf target')
    n = a[1].k if isc(a[1]) else 1
    ex.havoc_range(st, p.r, scval(p.o), min(n, 512))
    ex.store(st, p, c, ty('i8'), i.get('ln'))
    return fresh('len', 32, 0, 1 << 20)
def text_of(ex, p):
    """the characters of a std::string object or C string with known contents, or None"""
    if not isinstance(p, P): return None
    if p.r.info.get('text') is not None: return p.r.info['text']
    t = ex.gcache.get(('text', p.r))
    if t is not None: return t
    if p.r.kind == 'glob' and isc(p.o):
        c = ex.ginit(p.r); o = scval(p.o); out = bytearray()
        while True:
            x = c.get(o)
            v = int(x[1][2]) & 255 if x is not None and x[1][0] == 'c' else 0
            if v == 0: return bytes(out)
            out.append(v); o += 1
    return None
def c_streq(ex, st, a, i, dem):
    x, y = text_of(ex, a[0]), text_of(ex, a[1])
    if x is None or y is None: raise Unsup('comparison of unknown strings')
    return TRUE if x.split(b'\0')[0] == y.split(b'\0')[0] else FALSE
def c_strlit(ex, st, a, i, dem):
    ex.gcache['text', a[0].r] = text_of(ex, a[1]); return None
def skey(p): return ('str', p.r, p.o) if isinstance(p, P) and p.r is not NULLR else None
def c_strtok(ex, st, a, i, dem):
    """std::string objects made from a string argument keep its identity through copies and moves; every other change forgets it"""
    import api
    k = skey(a[0]) if a else None
    if k is None: return None
    m = re.search(r'::(operator=|assign|basic_string|c_str|data|_M_data|size|length|empty|~basic_string)(?:<[^()]*>)?(\(.*| const.*)?$', dem.replace('[abi:cxx11]', ''))
    f = m.group(1) if m else None; cur = st.gh.get(k)
    if f == 'basic_string' and re.search(r'basic_string<[^()]*>\(char const\*', dem): f = 'assign'; 
    if f in ('c_str', 'data', '_M_data') and cur is not None: return (P(api.symtext(ex, cur)),)
    if f in ('size', 'length') and cur is not None: return (zext(cur.len, 64),)
    if f == 'empty' and cur is not None: return (eq(cur.len, const(0, 32)),)
    if dem.endswith(' const') or 'std::operator+' in dem: return None
    new = None
    if f in ('operator=', 'assign', 'basic_string') and len(a) > 1 and isinstance(a[1], P):
        if a[1].r.info.get('tok') is not None and a[1].o is Z64:
            new = a[1].r.info['tok']
            if len(a) > 2 and isinstance(a[2], T) and a[2].w == 64 and not ex.must(st, eq(trunc(a[2], 32), new.len)): new = None
        elif a[1].r.kind == 'glob' and len(a) <= 3 and text_of(ex, a[1]) is not None: new = api.lit(text_of(ex, a[1]).decode('latin1'))
        elif skey(a[1]) and st.gh.get(skey(a[1])) is not None and len(a) <= 3 and 'basic_string' in dem[dem.find('('):]: new = st.gh[skey(a[1])]
    for q in a:
        if isinstance(q, P) and skey(q) in st.gh and (q is a[0] or '&&' in dem): st.ghost(skey(q), None)
    if new is not None: st.ghost(k, new)
    return None
def c_string(ex, st, a, i, dem):
    """std::string and friends: opaque values; the operation only touches the string objects it is given"""
    t = i['ty']; r = c_strtok(ex, st, a, i, dem)
    if r is not None: return r[0]
    if t == 'void': return None
    if t == 'ptr': return a[0]
    tt = ty(t)
    if tt.k == 'i': return fresh('str', tt.n)
    return ex.undef(tt)

def call(ex, st, name, dem, a, i):
    if name in ('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk'):
        ex.memcpy(st, a[0], a[1], a[2], i.get('ln')); return a[0]
    if name in ('snprintf', '__snprintf_chk'):
        return c_snprintf(ex, st, a[:2] + (a[4:] if name != 'snprintf' else a[2:]), i, dem)
    if name == 'memset': ex.memset(st, a[0], ext(a[1], 7, 0), a[2], i.get('ln')); return a[0]
    if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', 'aligned_alloc', 'calloc'):
        k = 1 if name == 'aligned_alloc' else 0
        ex.assumptions.add('memory allocation succeeds')
        n = a[k]
        if name == 'calloc': n = mul(a[0], a[1])
        if isc(n) and not (name in ('malloc', 'aligned_alloc') and n.k >= 128): r = new_region(ex, st, 'heap', n.k)
        else:
            ex.allocs += 1
            n64 = zext(n, 64) if n.w < 64 else n
            bound = lambda co, k: band(sle(Z64, co[-1]), sle(add(co[-1], const(k, 64) if isinstance(k, int) else k), n64))
            r = Region(f'heap.{ex.allocs}', 'arr', es=None, size=n, info={'uninit': True, 'local': True, 'heap': True, 'bound': bound})
        return P(r)
    if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t'):
        return None
    if name in ('__assert_fail', 'abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt19__throw_logic_errorPKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_out_of_rangePKc', '_ZSt25__throw_bad_function_callv', '_ZSt20__throw_system_errori'):
        ex.aborts.append((name, st.pc, i.get('ln'))); st.assume(FALSE); return ('multi', [], [])
    if name == '__cxa_allocate_exception': return P(new_region(ex, st, 'exception', None))
    if name == '__cxa_free_exception': return None
    if name == '__cxa_throw':
        tn = a[1].r.name if isinstance(a[1], P) else '?'
        st.exc = (tn, a[0].r)
        return ('multi', [], [st])
    if name == '__cxa_begin_catch':
        # the caught object: its dynamic type is some std::exception, what() is some text
        vt = Region('vt.exception', 'obj', init=lambda ex, st, r, o, n, t: P(ex.fnreg('std.exception.what')), ro=True)
        return P(Region('caught', 'obj', init=lambda ex, st, r, o, n, t: P(vt) if t is not None and t.k == 'p' else fresh('exc', 8 * n), info={'local': True}))
    if name == 'std.exception.what': return P(Region('what', 'opaque'))
    if name == '__cxa_end_catch': st.exc = None; return None
    if name in ('strlen', 'strcmp', 'strncmp', 'memcmp', 'strstr', 'atoi', 'isalpha'):
        return fresh(name, ty(i['ty']).n)
    if name in ('exp', 'log', 'pow', 'sin', 'cos', 'floor', 'ceil', 'sqrt', 'expf', 'logf', 'powf', 'floorf', 'ceilf', 'round', 'roundf', 'lround', 'lroundf', 'fmod', 'exp2f', 'log2f', 'sinf', 'cosf', 'tan', 'atan', 'log10', 'exp10', 'llround', 'nearbyintf', 'rint', 'trunc', 'truncf'):
        return mk('fun', ty(i['ty']).n, tuple(a), name)
    if name == 'ldexp':
        if isc(a[0]) and isc(a[1]): return fconst(math.ldexp(fval(a[0]), scval(a[1])), 64)
        return mk('fun', 64, tuple(a), name)
    if name in ('lrintf', 'lrint'):
        import intrin
        return sext(intrin.rint(a[0]), 64)
    if re.search(r'std::(__cxx11::)?basic_string|std::operator\+|std::to_string|std::char_traits|std::allocator<char>|basic_ostream|basic_stringstream|std::__cxx11::to_string', dem) or name in ('_ZNSaIcEC1Ev', '_ZNSaIcED1Ev', '_ZNSaIcEC2Ev', '_ZNSaIcED2Ev'):
        ex.assumptions.add('std::string operations only touch their own objects')
        return c_string(ex, st, a, i, dem)
    if re.match(r'std::(runtime_error|logic_error|invalid_argument|exception|out_of_range)', dem): return None
    if name == '_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_':
        # the tree keeps its order; balancing is not observable through the set interface
        if not isc(a[0]): raise Unsup('insertion into an ordered set at a symbolic position')
        left = a[0].k & 1; x, p, h = a[1:]; pt = ty('ptr'); same = lambda u, v: isinstance(u, P) and u.r is v.r and u.o is v.o
        ex.store(st, padd(x, const(8, 64)), p, pt); ex.store(st, padd(x, const(16, 64)), NULL, pt); ex.store(st, padd(x, const(24, 64)), NULL, pt)
        ends = {k: ex.load(st, padd(h, const(k, 64)), pt) for k in (16, 24)}
        ex.store(st, padd(p, const(16 if left else 24, 64)), x, pt)
        if same(p, h):
            for k in (8, 16, 24): ex.store(st, padd(h, const(k, 64)), x, pt)
        elif left and same(ends[16], p): ex.store(st, padd(h, const(16, 64)), x, pt)
        elif not left and same(ends[24], p): ex.store(st, padd(h, const(24, 64)), x, pt)
        return None
    if name in ('_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base'):
        pt = ty('ptr'); x = a[0]; ld = lambda u, k: ex.load(st, padd(u, const(k, 64)), pt); null = lambda u: u is NULL or (not isinstance(u, P))
        same = lambda u, v: u.r is v.r and u.o is v.o; L, R = (16, 24) if 'increment' in name else (24, 16)
        y = ld(x, R)
        if not null(y):
            while not null(ld(y, L)): y = ld(y, L)
            return y
        y = ld(x, 8)
        while same(x, ld(y, R)): x, y = y, ld(y, 8)
        return x if not null(ld(x, R)) and same(ld(x, R), y) else y
    raise Unsup('external ' + dem)

CONTRACTS = [(re.compile(rx), h) for rx, h in [
    (r'^bool std::operator==<char', c_streq), (r'^std::literals::string_literals::operator""', c_strlit),
    (r'^void std::sort<', c_sort),
    (r'^std::vector<.*>::(push_back|emplace_back)\b|^.* std::vector<.*>::emplace_back<', c_vec_push),
    (r'^std::vector<.*>::vector\(unsigned long', c_vec_ctor_n),
    (r'^std::vector<.*>::vector\(std::vector<.*const&\)', c_vec_copy),
    (r'^std::vector<.*>::resize\(', c_vec_resize),
    (r'^std::vector<.*>::reserve\(', c_noop),
    (r'^std::vector<.*>::~vector\(', c_noop),
    (r'^(std::operator\+|std::__cxx11::basic_string<|std::basic_string<|.* std::operator\+)', c_string),
    (r'^std::to_string|^std::__cxx11::to_string', c_string),
]]
# regexes of functions kept out of line by the exporter because they have a contract above
STOP = [r'^bool std::operator==<char', r'^std::literals::string_literals::operator""', r'^void std::sort<', r'^std::vector<.*>::(push_back|emplace_back|resize|reserve|~vector|insert|erase|assign|operator=|_M_[a-z_]+|vector\((unsigned long|std::initializer_list|std::vector))', r'^.* std::vector<.*>::emplace_back',
        r'^std::(__cxx11::)?basic_string<.*', r'^.* std::operator\+', r'^std::operator\+', r'^std::__cxx11::to_string', r'^std::to_string', r'^std::allocator<char>::', r'^std::runtime_error::', r'^.*std::vector<.*>::(insert|erase|emplace)']
