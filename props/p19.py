"""P19 rational arithmetic and comparison helpers of the public header."""
from common import *
from direct import *
import hashlib, subprocess
from p14 import VF, VI, AF, AI, eqb, bool_
LEVEL = 'proof'
HUNT_S = {'quick': 20, 'thorough': 200}; HUNT_PARTS = 4
TASK_S = {'quick': 120, 'thorough': 600}
TEXT = '''#include "VapourSynth4.h"
#include "VSHelper4.h"
extern "C" {
__attribute__((visibility("default"))) void t_muldiv(int64_t *n, int64_t *d, int64_t m, int64_t v) { vsh::muldivRational(n, d, m, v); }
__attribute__((visibility("default"))) void t_reduce(int64_t *n, int64_t *d) { vsh::reduceRational(n, d); }
__attribute__((visibility("default"))) void t_add(int64_t *n, int64_t *d, int64_t an, int64_t ad) { vsh::addRational(n, d, an, ad); }
__attribute__((visibility("default"))) int t_ints(int64_t i) { return vsh::int64ToIntS(i); }
__attribute__((visibility("default"))) int t_dims(const VSVideoFormat *f, int w, int h) { return vsh::areValidDimensions(f, w, h); }
__attribute__((visibility("default"))) int t_const(const VSVideoInfo *a) { return vsh::isConstantVideoFormat(a); }
__attribute__((visibility("default"))) int t_samef(const VSVideoFormat *a, const VSVideoFormat *b) { return vsh::isSameVideoFormat(a, b); }
__attribute__((visibility("default"))) int t_samevi(const VSVideoInfo *a, const VSVideoInfo *b) { return vsh::isSameVideoInfo(a, b); }
__attribute__((visibility("default"))) int t_sameaf(const VSAudioFormat *a, const VSAudioFormat *b) { return vsh::isSameAudioFormat(a, b); }
__attribute__((visibility("default"))) int t_sameai(const VSAudioInfo *a, const VSAudioInfo *b) { return vsh::isSameAudioInfo(a, b); }
__attribute__((visibility("default"))) void t_blt(void *d, ptrdiff_t ds, const void *s, ptrdiff_t ss, size_t r, size_t h) { vsh::bitblt(d, ds, s, ss, r, h); }
}
'''
def mod(): return Fns([r'^t_'], text=TEXT, nostops=True)
def gcd(a, b): return uf('gcd', 64, (a, b))
def neg_(a): return sub(c64(0), a)
def euclid(rec):
    """invariant of the loop that computes the greatest common divisor: gcd of the two running values never changes"""
    from ir import Module
    def inv(s, fr, h, st):
        fn = fr.fn; phis = [i['id'] for i in fn.blocks[h] if i['op'] == 'phi']
        if len(phis) != 2 or any(not isinstance(st.env[p], T) or st.env[p].w != 64 for p in phis): raise Unsup('loop over two running values expected')
        a0, b0 = (st.env[p] for p in phis); fa, fb = fresh('a', 64), fresh('b', 64); x = st.copy(); x.env[phis[0]] = fa; x.env[phis[1]] = fb
        exits, backs = s.run_region(fr, h, [(None, x)], h, have_phis=True)
        backs = [(p, y) for p, y in backs if FALSE not in y.pc]
        if len(backs) != 1: raise Unsup('one way round the loop expected')
        p, y = backs[0]; n = s.phis(fn, h, p, y); na, nb = n.env[phis[0]], n.env[phis[1]]
        # which of the two is divided: the next value of one is the other
        if na is fb: A, B, NA, NB, i0 = fa, fb, na, nb, (a0, b0)
        elif nb is fa: A, B, NA, NB, i0 = fb, fa, nb, na, (b0, a0)
        else: raise Unsup('the running values do not shift')
        step = implies(ne(B, c64(0)), eq(gcd(A, B), gcd(B, srem(A, B)))); G = gcd(*i0)
        rec.prove('one round of the Euclidean loop keeps the greatest common divisor', implies(step, eq(gcd(NA, NB), gcd(A, B))), tuple(y.pc))
        rec.prove('the divisor shrinks in every round', band(ne(B, c64(0)), slt(absv(NB), absv(B))) , tuple(y.pc) + (ne(B, MINV), ne(A, MINV)))
        for w in (z for q in exits for z in q if isinstance(z, State)):
            w.assume(eq(gcd(A, B), G)); w.assume(implies(eq(B, c64(0)), eq(gcd(A, B), absv(A)))); w.assume(implies(bor(*[ne(q, c64(0)) for q in i0]), slt(c64(0), G)))
        s.loops_summarised += 1; rec.g = G
        return exits
    return inv
MINV = const(1 << 63, 64)
def absv(a): return ite(slt(a, c64(0)), neg_(a), a)
def loops_of(m, rx):
    """loop headers of a wrapper after inlining"""
    fn = m.mod.fn(m.name(rx)); return fn, fn.name
class AnyLoop(dict):
    """the hook applies to every loop of the functions run"""
    def __init__(s, f): s.f = f
    def __contains__(s, k): return True
    def __getitem__(s, k): return s.f
def t_rational(rec, fn):
    m = mod(); n, d, a, b = (var(x, 64) for x in ('num', 'den', 'mul', 'div')); N, D = Region('num', 'obj', size=8), Region('den', 'obj', size=8)
    N.init = lambda ex, st, r, o, k, t: n; D.init = lambda ex, st, r, o, k, t: d
    R = lambda v: band(sle(const(-(1 << 31), 64), v), sle(v, const((1 << 31) - 1, 64)))
    facts = [R(n), R(d), ne(d, c64(0))]; args = [P(N), P(D)]
    if fn != 't_reduce': args += [a, b]; facts += [R(a), R(b), ne(b, c64(0))]
    if fn != 't_reduce': rec.prove('lemma: a product of nonzero 32-bit denominators is not zero', ne(mul(d, b), c64(0)), tuple(facts), kind='lemma'); facts.append(ne(mul(d, b), c64(0)))
    ex = Exec(m.mod, m.contracts, unroll=12); ex.invariants = AnyLoop(euclid(rec)); st = State()
    for c in facts: st.assume(c)
    outs, excs = ex.call(m.name(rf'^{fn}$'), args, st)
    for x, v in outs:
        if FALSE in x.pc: continue
        pc = tuple(x.pc) + tuple(ex.facts); gn, gd = rd(ex, x, N, 0, 64), rd(ex, x, D, 0, 64)
        if fn == 't_reduce': wn, wd = n, d
        elif fn == 't_muldiv': wn, wd = mul(n, a), mul(d, b)
        else: wn = add(mul(n, b), mul(a, d)); wd = mul(d, b)
        same = eq(d, b) if fn == 't_add' else FALSE
        g = rec.g
        rec.prove('the result is the exact product or sum divided by the greatest common divisor', implies(bnot(same), bor(*[band(eq(gn, sdiv(wn, q)), eq(gd, sdiv(wd, q))) for q in (gcd(wn, wd), gcd(wd, wn))])), pc)
        if fn == 't_add': rec.prove('equal denominators: numerators are added', implies(same, band(eq(gn, add(n, a)), eq(gd, d))), pc)
    rec.check('the function returns', bool(outs)); rec.side(ex)
    # a zero denominator leaves everything as it was
    st = State(); st.assume(eq(d, c64(0))); outs, excs = ex.call(m.name(rf'^{fn}$'), args, st)
    for x, v in outs:
        if FALSE not in x.pc: rec.prove('an invalid rational is left alone', band(eq(rd(ex, x, N, 0, 64), n), eq(rd(ex, x, D, 0, 64), d)), tuple(x.pc) + tuple(ex.facts))
def t_pure(rec, fn):
    m = mod()
    if fn == 't_ints':
        i = var('i', 64); args = [i]; want = ite(slt(const(2 ** 31 - 1, 64), i), c32(2 ** 31 - 1), ite(slt(i, const(-2 ** 31, 64)), c32(-2 ** 31), trunc(i, 32))); facts = []
    elif fn == 't_dims':
        f = struct('f', VF); w, h = var('w', 32), var('h', 32); args = [P(f), w, h]; sw, sh_ = f.m['subSamplingW'], f.m['subSamplingH']; facts = [sle(c32(0), sw), sle(sw, c32(4)), sle(c32(0), sh_), sle(sh_, c32(4))]
        want = band(*[eq(and_(v, sub(shl(c32(1), s), c32(1))), c32(0)) for v, s in ((w, sw), (h, sh_))])
    else:
        F = VF if fn == 't_samef' else AF if fn == 't_sameaf' else AI if fn == 't_sameai' else VI; facts = []
        f, g = struct('a', F), struct('b', F); args = [P(f), P(g)][:1 if fn == 't_const' else 2]
        K = {'t_samef': ('colorFamily', 'sampleType', 'bitsPerSample', 'subSamplingW', 'subSamplingH'), 't_sameaf': ('bitsPerSample', 'sampleType', 'channelLayout')}
        K['t_samevi'] = K['t_samef'] + ('width', 'height'); K['t_sameai'] = K['t_sameaf'] + ('sampleRate',)
        if fn == 't_const': want = band(slt(c32(0), f.m['width']), slt(c32(0), f.m['height']), ne(f.m['colorFamily'], c32(0)))
        else: want = band(*[eq(f.m[k], g.m[k]) for k in K[fn]])
    ex, outs, excs = m.run(rf'^{fn}$', args, facts)
    for x, v in outs: rec.prove('the result is the documented one', eq(v, want) if fn == 't_ints' else eqb(bool_(v), want), tuple(x.pc) + tuple(ex.facts))
    rec.check('the function returns', bool(outs) and not excs); rec.side(ex)
PURE = ('t_ints', 't_dims', 't_const', 't_samef', 't_samevi', 't_sameaf', 't_sameai')
def tasks(tier):
    return [('p19', 't_rational', f, dict(fn=f)) for f in ('t_reduce', 't_muldiv', 't_add')] + [('p19', 't_pure', f, dict(fn=f)) for f in PURE]

# ------------------------------------------------------------------ concrete search
def lib():
    import ctypes as C, buildrt
    if hasattr(lib, 'l'): return lib.l
    cpp = subprocess.run(['g++', '-std=c++20', f'-I{buildrt.REPO}/include', '-E', '-P', '-xc++', '-'], input=TEXT, capture_output=True, text=True, check=True).stdout
    so = os.path.join(buildrt.BUILD, f'p19-{hashlib.sha1(cpp.encode()).hexdigest()[:12]}.so')
    if not os.path.exists(so):
        subprocess.run(['g++', '-std=c++20', '-O2', '-shared', '-fPIC', '-xc++', '-', '-o', f'{so}.{os.getpid()}'], input=cpp, text=True, check=True); os.rename(f'{so}.{os.getpid()}', so)
    lib.l = C.CDLL(so); return lib.l
def run_case(x):
    import ctypes as C, math
    L = lib(); fn = x['fn']; v = [int(i) for i in x['v']]; i64 = C.c_int64
    if fn in ('t_reduce', 't_muldiv', 't_add'):
        n, d = i64(v[0]), i64(v[1]); getattr(L, fn)(C.byref(n), C.byref(d), *[i64(q) for q in v[2:]])
        if v[1] == 0: want = (v[0], 0)
        elif fn == 't_add' and v[1] == v[3]: want = (v[0] + v[2], v[1])
        else:
            a, b = (v[0], v[1]) if fn == 't_reduce' else (v[0] * v[2], v[1] * v[3]) if fn == 't_muldiv' else (v[0] * v[3] + v[2] * v[1], v[1] * v[3]); g = math.gcd(a, b); want = (int(a // g), int(b // g))
        if (n.value, d.value) != want: return f'{fn}{tuple(v)} gave {n.value}/{d.value}, not {want[0]}/{want[1]}'
    elif fn == 't_ints':
        L.t_ints.restype = C.c_int; w = max(-2 ** 31, min(2 ** 31 - 1, v[0]))
        if L.t_ints(i64(v[0])) != w: return f'int64ToIntS({v[0]}) is not {w}'
    elif fn == 't_dims':
        f = (C.c_int * 7)(3, 0, 8, 1, v[0], v[1], 3); w = v[2] % (1 << v[0]) == 0 and v[3] % (1 << v[1]) == 0
        if bool(L.t_dims(f, v[2], v[3]) & 255) != w: return f'areValidDimensions(subsampling {v[0]},{v[1]}, {v[2]}x{v[3]}) is not {w}'
    elif fn == 't_blt':
        r, h, ds, ss = v; A = (C.c_ubyte * (ss * h + 64))(*[(7 * i + 3) % 251 for i in range(ss * h + 64)]); B = (C.c_ubyte * (ds * h + 64))(*[255] * (ds * h + 64))
        L.t_blt(B, C.c_ssize_t(ds), A, C.c_ssize_t(ss), C.c_size_t(r), C.c_size_t(h))
        want = bytearray([255] * (ds * h + 64)); a = bytes(A)
        for y in range(h): want[y * ds:y * ds + r] = a[y * ss:y * ss + r]
        if bytes(B) != bytes(want): return f'bitblt of {h} rows of {r} bytes (strides {ds}, {ss}) copied something else'
    else:
        k = {'t_const': 1}.get(fn, 2); n = len(v) // k; import struct as S
        pack = lambda f: S.pack({'t_samef': '=7i', 't_sameaf': '=4iQ', 't_sameai': '=4iQi4xqi4x'}.get(fn, '=7i4xqq3i4x'), *f)
        a = [C.create_string_buffer(pack(v[j * n:(j + 1) * n])) for j in range(k)]; p = [v[j * n:(j + 1) * n] for j in range(k)]
        K = {'t_samef': (0, 1, 2, 4, 5), 't_sameaf': (0, 1, 4), 't_samevi': (0, 1, 2, 4, 5, 9, 10), 't_sameai': (0, 1, 4, 5)}.get(fn)
        w = p[0][0] != 0 and p[0][9] > 0 and p[0][10] > 0 if fn == 't_const' else all(p[0][j] == p[1][j] for j in K)
        if bool(getattr(L, fn)(*a) & 255) != w: return f'{fn}{p} is not {w}'
def hunt(H):
    r = lambda a, b: int(H.rng.integers(a, b + 1)); pick = lambda *t: t[r(0, len(t) - 1)]
    def q(): return pick(0, 1, 2, 24, 1001, 30000, r(-50, 50), r(0, 10 ** 6), r(-2 ** 31, 2 ** 31 - 1), -1, 2 ** 31 - 1)
    while H.go():
        fn = pick('t_reduce', 't_muldiv', 't_add', 't_ints', 't_dims', 't_blt', 't_const', 't_samef', 't_samevi', 't_sameaf', 't_sameai')
        if fn == 't_reduce': v = [pick(q(), r(-2 ** 62, 2 ** 62)), pick(q(), r(-2 ** 62, 2 ** 62))]
        elif fn in ('t_muldiv', 't_add'): v = [q(), q(), q(), q() or 1]; v[3] = v[1] if r(0, 5) == 0 and v[1] else v[3]; v = [max(-2 ** 30, min(2 ** 30, i)) for i in v] if fn == 't_add' else v
        elif fn == 't_ints': v = [pick(r(-2 ** 63, 2 ** 63 - 1), 2 ** 31 + r(-3, 3), -2 ** 31 + r(-3, 3), 2 ** 32 + r(-3, 3), r(-5, 5))]
        elif fn == 't_dims': v = [r(0, 4), r(0, 4), r(0, 200), r(0, 200)]
        elif fn == 't_blt': w = r(0, 80); v = [w, r(0, 6), w + pick(0, 0, r(0, 40)), w + pick(0, 0, r(0, 40))]
        else:
            n = {'t_samef': 7, 't_sameaf': 5, 't_sameai': 8}.get(fn, 12); a = [r(0, 3) for _ in range(n)]
            if fn == 't_const': v = [r(-1, 2) if j in (9, 10) else x for j, x in enumerate(a)]
            else: b = list(a); [b.__setitem__(r(0, n - 1), r(0, 3)) for _ in range(r(0, 2))]; v = a + b
        x = H.case(fn, fn=fn, v=[str(i) for i in v]); e = run_case(x)
        if e: H.fail(e)
def rerun(x): return run_case(x)
