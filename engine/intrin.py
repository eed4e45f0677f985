"""Semantics of the LLVM and x86 intrinsics that occur in the sources (per lane, exact for integers)."""
import re
from term import *
from exec import *

def L(f, *a):
    if isinstance(a[0], V): return V([f(*x) for x in zip(*a)])
    return f(*a)
def U(f):
    def g(*a):
        if any(x is UNDEF for x in a): return UNDEF
        return f(*a)
    return g
def usubsat(a, b): return ite(ult(a, b), const(0, a.w), sub(a, b))
def uaddsat(a, b):
    w = a.w; s_ = add(zext(a, w + 8), zext(b, w + 8))
    return ext(umin_(s_, const(mask(w), w + 8)), w - 1, 0)
def umin_(a, b): return ite(slt(b, a), b, a)
def clamp_s(x, w):
    F = full(w)
    return ext(smin(smax(x, const(F[0], x.w)), const(F[1], x.w)), w - 1, 0)
def sat_s(f):
    def g(a, b):
        w = a.w; return clamp_s(f(sext(a, w + 8), sext(b, w + 8)), w)
    return g
def packs(x, w): return clamp_s(x, w)
def packus(x, w):
    return ext(smin(smax(x, const(0, x.w)), const(mask(w), x.w)), w - 1, 0)
def pack(a, b, f, w):
    n = len(a); bl = 128 // a[0].w if a[0] is not UNDEF else n
    out = []
    for i in range(0, n, bl):
        out += [f(x, w) for x in a[i:i + bl]] + [f(x, w) for x in b[i:i + bl]]
    return V(out)
def pmadd(a, b, w=32):
    return V([add(mul(sext(a[i], w), sext(b[i], w)), mul(sext(a[i + 1], w), sext(b[i + 1], w))) for i in range(0, len(a), 2)])
def fmaxps(a, b): return ite(fcmp('ogt', a, b), a, b)
def fminps(a, b): return ite(fcmp('olt', a, b), a, b)
def absd(a, b): return ite(ult(a, b), sub(b, a), sub(a, b))
def low64(v):
    """low 64 bits of a count vector"""
    r = None; w = 0
    for x in v:
        if x is UNDEF: x = const(0, v[0].w if v[0] is not UNDEF else 32)
        r = x if r is None else concat(x, r); w = r.w
        if w >= 64: break
    return r
def shiftv(a, cnt, f):
    c = low64(cnt) if isinstance(cnt, V) else zext(cnt, 64)
    w = a[0].w
    if isc(c):
        k = c.k
        return V([f(x, const(min(k, w), w) if k < w else None) for x in a])
    if not (ivu(c)[1] < w): pass
    return V([ite(ult(c, const(w, 64)), f(x, ext(c, w - 1, 0)), f(x, None)) for x in a])
def s_l(x, c): return const(0, x.w) if c is None else shl(x, c)
def s_r(x, c): return const(0, x.w) if c is None else lshr(x, c)
def s_a(x, c): return ashr(x, const(x.w - 1, x.w)) if c is None else ashr(x, c)
def maskbits(m, n):
    return [ext(m, i, i) for i in range(n)] if isinstance(m, T) else list(m)
def fabs(x): return and_(x, const(mask(x.w) >> 1, x.w))
EXBASE = {'_ZTISt' + a: '_ZTISt' + b for a, b in (('13runtime_error', '9exception'), ('11logic_error', '9exception'), ('9bad_alloc', '9exception'), ('16invalid_argument', '11logic_error'), ('12out_of_range', '11logic_error'), ('12length_error', '11logic_error'), ('11range_error', '13runtime_error'), ('14overflow_error', '13runtime_error'))}
def fpclass(x, k):
    """llvm.is.fpclass at the bit level"""
    eb, mb = {16: (5, 10), 32: (8, 23), 64: (11, 52)}[x.w]; w = x.w; INF = ((1 << eb) - 1) << mb; C = lambda v: const(v, w)
    m = zext(ext(x, w - 2, 0), w); sg = ext(x, w - 1, w - 1); sgn_ = sg if sg.w == 1 else eq(sg, const(1, 1)); out = []
    if k & 3 == 3: out.append(ult(C(INF), m))
    elif k & 1: out.append(band(ult(C(INF), m), bnot(ule(C(INF | 1 << (mb - 1)), m))))
    elif k & 2: out.append(ule(C(INF | 1 << (mb - 1)), m))
    # value classes from -inf to +inf as magnitude ranges
    for neg, bits in ((True, (5, 4, 3, 2)), (False, (6, 7, 8, 9))):
        R = [(0, 0), (1, (1 << mb) - 1), (1 << mb, INF - 1), (INF, INF)]; i = 0
        while i < 4:
            if not k >> bits[i] & 1: i += 1; continue
            j = i
            while j < 3 and k >> bits[j + 1] & 1: j += 1
            out.append(band(sgn_ if neg else bnot(sgn_), ule(C(R[i][0]), m), ule(m, C(R[j][1])))); i = j + 1
    return bor(*out)
def rint(x, w=32): return mk('cvt', w, (x,), 'rint')
def perm(tab, idx, bits):
    out = []
    for i in idx:
        k = ext(i, bits - 1, 0)
        if isc(k): out.append(tab[k.k]); continue
        out.append(sel_tree(tab, k))
    return V(out)
def sel_tree(tab, k):
    if len(tab) == 1: return tab[0]
    h = len(tab) // 2
    b = ext(k, k.w - 1, k.w - 1)
    if k.w == 1: return vite(b, tab[1], tab[0])
    kk = ext(k, k.w - 2, 0)
    return vite(b, sel_tree(tab[h:], kk), sel_tree(tab[:h], kk))

X86 = {}
def x86(*names):
    def d(f):
        for n in names: X86[n] = f
        return f
    return d
x86('sse2.pmadd.wd', 'avx2.pmadd.wd', 'avx512.pmaddw.d.512')(lambda ex, st, a: pmadd(a[0], a[1]))
x86('sse2.packuswb.128', 'avx2.packuswb', 'avx512.packuswb.512')(lambda ex, st, a: pack(a[0], a[1], packus, 8))
x86('sse2.packsswb.128', 'avx2.packsswb', 'avx512.packsswb.512')(lambda ex, st, a: pack(a[0], a[1], packs, 8))
x86('sse2.packssdw.128', 'avx2.packssdw', 'avx512.packssdw.512')(lambda ex, st, a: pack(a[0], a[1], packs, 16))
x86('sse41.packusdw', 'avx2.packusdw', 'avx512.packusdw.512')(lambda ex, st, a: pack(a[0], a[1], packus, 16))
x86('sse.max.ps', 'avx.max.ps.256', 'avx512.max.ps.512', 'sse2.max.pd')(lambda ex, st, a: L(fmaxps, a[0], a[1]))
x86('sse.min.ps', 'avx.min.ps.256', 'avx512.min.ps.512', 'sse2.min.pd')(lambda ex, st, a: L(fminps, a[0], a[1]))
x86('sse2.psrli.w', 'avx2.psrli.w', 'avx512.psrli.w.512', 'sse2.psrli.d', 'avx2.psrli.d', 'avx512.psrli.d.512', 'sse2.psrl.d', 'avx2.psrl.d', 'avx512.psrl.d.512', 'sse2.psrl.w', 'avx2.psrl.w', 'avx512.psrl.w.512', 'sse2.psrli.q', 'avx2.psrli.q', 'sse2.psrl.q')(lambda ex, st, a: shiftv(a[0], a[1], s_r))
x86('sse2.psrai.d', 'avx2.psrai.d', 'avx512.psrai.d.512', 'sse2.psrai.w', 'avx2.psrai.w', 'sse2.psra.d', 'avx2.psra.d', 'sse2.psra.w', 'avx2.psra.w')(lambda ex, st, a: shiftv(a[0], a[1], s_a))
x86('sse2.pslli.w', 'avx2.pslli.w', 'avx512.pslli.w.512', 'sse2.pslli.d', 'avx2.pslli.d', 'avx512.pslli.d.512', 'avx512.psll.d.512', 'sse2.psll.d', 'avx2.psll.d', 'sse2.psll.w', 'avx2.psll.w', 'sse2.pslli.q', 'avx2.pslli.q')(lambda ex, st, a: shiftv(a[0], a[1], s_l))
x86('sse2.pmulhu.w', 'avx2.pmulhu.w', 'avx512.pmulhu.w.512')(lambda ex, st, a: L(lambda x, y: ext(mul(zext(x, 32), zext(y, 32)), 31, 16), a[0], a[1]))
x86('sse2.pmulh.w', 'avx2.pmulh.w', 'avx512.pmulh.w.512')(lambda ex, st, a: L(lambda x, y: ext(mul(sext(x, 32), sext(y, 32)), 31, 16), a[0], a[1]))
x86('ssse3.pmul.hr.sw.128', 'avx2.pmul.hr.sw', 'avx512.pmul.hr.sw.512')(lambda ex, st, a: L(lambda x, y: ext(ashr(add(mul(sext(x, 32), sext(y, 32)), const(0x4000, 32)), const(15, 32)), 15, 0), a[0], a[1]))
@x86('sse2.psad.bw', 'avx2.psad.bw', 'avx512.psad.bw.512')
def psad(ex, st, a):
    out = []
    for i in range(0, len(a[0]), 8):
        r = const(0, 64)
        for x, y in zip(a[0][i:i + 8], a[1][i:i + 8]): r = add(r, zext(absd(x, y), 64))
        out.append(r)
    return V(out)
x86('avx2.pblendvb', 'sse41.pblendvb')(lambda ex, st, a: V([ite(slt(m, const(0, 8)), y, x) for x, y, m in zip(a[0], a[1], a[2])]))
x86('sse2.cvtps2dq', 'avx.cvt.ps2dq.256')(lambda ex, st, a: L(rint, a[0]))
x86('avx512.mask.cvtps2dq.512')(lambda ex, st, a: V([ite(m, rint(x), p) for x, p, m in zip(a[0], a[1], maskbits(a[2], 16))]))
def f2h(x): return mk('cvt', 16, (x,), 'half')
def h2f(x): return mk('cvt', 32, (x,), 'fromhalf')
x86('vcvtps2ph.256', 'vcvtps2ph.128')(lambda ex, st, a: V([f2h(x) for x in a[0]] + [const(0, 16)] * (8 - len(a[0]))))
x86('avx512.mask.vcvtps2ph.512')(lambda ex, st, a: V([ite(m, f2h(x), p) if p is not UNDEF else f2h(x) for x, p, m in zip(a[0], a[2], maskbits(a[3], 16))]))
@x86('avx512.mask.gather.dpi.512', 'avx512.mask.gather.dps.512', 'avx512.mask.gather.qpi.512', 'avx2.gather.d.d.256')
def gather(ex, st, a):
    src, base, idx, m, sc = a
    ms = maskbits(m, len(idx)) if isinstance(m, T) else [x if x.w == 1 else slt(x, const(0, x.w)) for x in m]
    out = []
    for i, (x, p) in enumerate(zip(idx, src)):
        v = ex.load(st, padd(base, scale(sext(x, 64), sc.k)), ty('i32'))
        out.append(v if ms[i] is TRUE else vite(ms[i], v, p))
    return V(out)
x86('avx512.permvar.di.512', 'avx512.permvar.df.512', 'avx2.permd')(lambda ex, st, a: perm(a[0], a[1], 3 if len(a[0]) == 8 else 4))
x86('avx512.permvar.si.512', 'avx512.permvar.sf.512')(lambda ex, st, a: perm(a[0], a[1], 4))
x86('avx512.permvar.qi.512')(lambda ex, st, a: perm(a[0], a[1], 6))
x86('avx512.permvar.hi.512')(lambda ex, st, a: perm(a[0], a[1], 5))
x86('avx512.vpermi2var.qi.512')(lambda ex, st, a: perm(list(a[0]) + list(a[2]), a[1], 7))
x86('avx512.vpermi2var.hi.512')(lambda ex, st, a: perm(list(a[0]) + list(a[2]), a[1], 6))
@x86('avx512.vpdpbusd.512', 'avx512.vpdpbusd.256', 'avx512.vpdpbusd.128')
def vpdpbusd(ex, st, a):
    acc, u, s_ = a
    ub = ex.bitcast(u, _vt(len(u), 32), _vt(len(u) * 4, 8)); sb = ex.bitcast(s_, _vt(len(u), 32), _vt(len(u) * 4, 8))
    out = []
    for i, x in enumerate(acc):
        for j in range(4): x = add(x, mul(zext(ub[4 * i + j], 32), sext(sb[4 * i + j], 32)))
        out.append(x)
    return V(out)
def _vt(n, w): return ty(f'<{n} x i{w}>')
x86('sse2.pause')(lambda ex, st, a: None)
x86('avx.cvt.pd2.ps.256')(lambda ex, st, a: L(lambda x: mk('cvt', 32, (x,), ('fptrunc', 64, 32)), a[0]))

def call(ex, st, name, a, i):
    n = name[5:]
    if n.startswith('x86.'):
        f = X86.get(n[4:])
        if f is None: raise Unsup('intrinsic ' + name)
        return f(ex, st, a)
    h = n.split('.')[0]
    if h in ('smax', 'smin', 'umax', 'umin'):
        if isptr(a[0]): raise Unsup('ptr min')
        return L(U({'smax': smax, 'smin': smin, 'umax': umax, 'umin': umin}[h]), a[0], a[1])
    if n.startswith('usub.sat'): return L(U(usubsat), a[0], a[1])
    if n.startswith('uadd.sat'): return L(U(uaddsat), a[0], a[1])
    if n.startswith('ssub.sat'): return L(U(sat_s(sub)), a[0], a[1])
    if n.startswith('sadd.sat'): return L(U(sat_s(add)), a[0], a[1])
    if h == 'abs': return L(U(lambda x: ite(slt(x, const(0, x.w)), neg(x), x)), a[0])
    if h == 'memcpy' or h == 'memmove': ex.memcpy(st, a[0], a[1], zext(a[2], 64), i.get('ln')); return None
    if h == 'memset': ex.memset(st, a[0], a[1], zext(a[2], 64), i.get('ln')); return None
    if h == 'expect': return a[0]
    if h in ('assume', 'dbg', 'prefetch', 'stackrestore', 'donothing', 'invariant', 'sideeffect'): return None
    if h == 'fabs': return L(fabs, a[0])
    if h == 'sqrt': return L(lambda x: fop('fsqrt', x.w, (x,)), a[0])
    if h in ('fma', 'fmuladd'): return L(lambda x, y, z: fop('fma', x.w, (x, y, z)), a[0], a[1], a[2])
    if h in ('lrint', 'llrint'):
        w = ty(i['ty']).n; return sext(rint(a[0]), w)
    if h in ('llround', 'lround'):
        w = ty(i['ty']).n; return L(lambda x: mk('cvt', w, (x,), 'llround'), a[0])
    if h in ('floor', 'ceil', 'rint', 'nearbyint', 'round', 'trunc', 'exp', 'log', 'pow', 'sin', 'cos', 'exp2', 'log2', 'log10', 'copysign', 'powi'):
        return L(lambda *x: mk('fun', x[0].w, x, h), *a)
    if h == 'minnum': return L(lambda x, y: ite(fcmp('olt', x, y), x, y), a[0], a[1])
    if h == 'maxnum': return L(lambda x, y: ite(fcmp('ogt', x, y), x, y), a[0], a[1])
    if n.startswith('masked.load'):
        p, al, m, pt = a
        t = ty(i['ty']); e = tsize(t.e); out = []
        for k in range(t.n):
            if m[k] is FALSE: out.append(pt[k]); continue
            v = ex.load(st, padd(p, const(k * e, 64)), t.e, i.get('ln'))
            out.append(vite(m[k], v, pt[k]))
        return V(out)
    if n.startswith('masked.store'):
        v, p, al, m = a
        t = ty(i['aty'][0]); e = tsize(t.e)
        for k in range(t.n):
            if m[k] is FALSE: continue
            q = padd(p, const(k * e, 64))
            for c, z in pcases(q): ex.store_cond(st, z, v[k], t.e, band(c, m[k]), i.get('ln'))
        return None
    if h == 'bswap':
        return L(lambda x: _bswap(x), a[0])
    if h in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and '.with.overflow' in n:
        x, y = a[0], a[1]; w = x.w; e = zext if h[0] == 'u' else sext
        f = {'add': add, 'sub': sub, 'mul': mul}[h[1:]]
        r = f(x, y); wd = f(e(x, 2 * w), e(y, 2 * w))
        return Agg([r, bnot(eq(wd, e(r, 2 * w)))])
    if h == 'fshl' or h == 'fshr':
        x, y, k = a
        if isc(k):
            w = x.w; c = k.k % w
            if h == 'fshl': return x if c == 0 else concat(ext(x, w - c - 1, 0), ext(y, w - 1, w - c))
            return y if c == 0 else concat(ext(x, c - 1, 0), ext(y, w - 1, c))
        raise Unsup('funnel shift')
    if n.startswith('vector.reduce.'):
        op = n.split('.')[2]
        f = {'add': add, 'and': and_, 'or': or_, 'xor': xor, 'mul': mul, 'umax': umax, 'umin': umin, 'smax': smax, 'smin': smin}.get(op)
        if f is None: raise Unsup(name)
        v = a[0]; r = v[0]
        for x in v[1:]: r = f(r, x)
        return r
    if n.startswith('eh.typeid.for'):
        r = a[0]
        nm = r.r.name if isinstance(r, P) else '?'
        t = st.exc[0] if st.exc else None; b = t
        while b and b != nm: b = EXBASE.get(b)
        return var('typeid:' + (t if b else nm), 32)
    if h == 'stacksave': return NULL
    if h in ('is', ) and 'constant' in n: return FALSE
    if h == 'is' and 'fpclass' in n:
        x = a[0]
        if isinstance(x, T) and isc(x):
            eb, mb = {16: (5, 10), 32: (8, 23), 64: (11, 52)}[x.w]; sg = x.k >> (x.w - 1); e = x.k >> mb & (1 << eb) - 1; m = x.k & (1 << mb) - 1
            if e == (1 << eb) - 1: b = 2 if sg else 9
            elif e: b = 3 if sg else 8
            else: b = (4 if sg else 7) if m else (5 if sg else 6)
            if e == (1 << eb) - 1 and m: b = 1 if m >> (mb - 1) else 0
            return TRUE if a[1].k >> b & 1 else FALSE
        return L(lambda x: fpclass(x, a[1].k), x)
    if h == 'objectsize': return const(-1, ty(i['ty']).n)
    if h in ('ctpop', 'ctlz', 'cttz'):
        x = a[0]
        if isinstance(x, T):
            if isc(x):
                if h == 'ctpop': return const(bin(x.k).count('1'), x.w)
                if h == 'ctlz': return const(x.w - x.k.bit_length(), x.w)
                return const((x.k & -x.k).bit_length() - 1 if x.k else x.w, x.w)
            if h == 'ctpop' and getattr(ex, 'opaque_ctpop', False):
                r = uf('ctpop', x.w, (x,)); ex.facts.append(ule(r, const(x.w, x.w))) if hasattr(ex.facts, 'append') else ex.facts.add(ule(r, const(x.w, x.w))); return r
            if h == 'ctpop':
                r = const(0, x.w)
                for k in range(x.w): r = add(r, zext1(ext(x, k, k), x.w))
                return r
            if h == 'cttz':
                r = const(x.w, x.w)
                for k in range(x.w - 1, -1, -1): r = ite(ext(x, k, k), const(k, x.w), r)
                return r
            r = const(x.w, x.w)
            for k in range(x.w): r = ite(ext(x, k, k), const(x.w - 1 - k, x.w), r)
            return r
        raise Unsup(name)
    if h == 'trap': ex.aborts.append(('trap', st.pc, i.get('ln'))); st.assume(FALSE); return None
    raise Unsup('intrinsic ' + name)
def _bswap(x):
    n = x.w // 8; r = None
    for k in range(n):
        b = ext(x, 8 * k + 7, 8 * k); r = b if r is None else concat(r, b)
    return r
