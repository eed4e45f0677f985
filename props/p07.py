"""P07 3x3 neighbourhood filters: Minimum, Maximum, Median, Deflate, Inflate, Prewitt, Sobel."""
from common import *
from p03 import sub_of, sh, X64
from p05 import fc, F1, F0, FH, cvt, half2f, f2half, clampn, clampv, procplanes, levels, pix
from intrin import fabs, fpclass
from p08 import floats, F64, F32, point_clip, okf
LEVEL = 'proof'
import term; term.OPT.update(fminmax='value', freal=True)
G = 'src/core/genericfilters.cpp'; K = 'src/core/kernel/'
SRC = (G, K + 'generic.cpp', K + 'x86/generic_sse2.cpp', (K + 'x86/generic_avx2.cpp', 'x86-64-v3'), (K + 'x86/generic_avx512.cpp', 'x86-64-v4'))
HUNT_S = {'quick': 20, 'thorough': 240}; HUNT_PARTS = 4
TASK_S = {'quick': 150, 'thorough': 1200}
def mod(): return FilterMod(SRC, r'^genericInitialize\(')
FPINF, FNINF = fc(0x7f800000), fc(0xff800000)
from intrin import fpclass
FNS = ('Minimum', 'Maximum', 'Median', 'Deflate', 'Inflate', 'Prewitt', 'Sobel')
def sfl(a, b, p='olt'): return fcmp(p, a, b)
def smin_(a, b): return ite(sfl(b, a), b, a)      # std::min
def smax_(a, b): return ite(sfl(a, b), b, a)      # std::max
NET = ((0, 1), (2, 3), (5, 6), (7, 8), (0, 2), (1, 3), (5, 7), (6, 8), (1, 2), (6, 7), (0, 5), (1, 6), (2, 7), (3, 8), (2, 5), (3, 6), (3, 5), (3, 4), (4, 5))
def network(v, mn, mx):
    v = list(v)
    for i, j in NET: v[i], v[j] = mn(v[i], v[j]), mx(v[i], v[j])
    return v[4]
def t_network(rec):
    """the reference network selects the median (0-1 principle: decided for all 2^9 zero-one inputs)"""
    bad = [m for m in range(512) if network([m >> i & 1 for i in range(9)], min, max) != (bin(m).count('1') >= 5)]
    rec.check('the reference min/max network selects the median', not bad)
def xr(v, mx):
    """round to nearest and clamp to 0..mx (mx the sample type's maximum)"""
    t = smin_(smax_(v, F0), F32(float(mx)))
    return mk('cvt', 32, (t,), 'rint')
def op3(fn, a, st, bits, th, sten, scale, fl_):
    """the documented operation on the 3x3 neighbourhood a (row major): integer samples are 32-bit terms, float ones float32 terms"""
    c = a[4]; nb = a[:4] + a[5:]
    if fn in ('Minimum', 'Maximum'):
        M = fn == 'Maximum'; v = c
        for e, x in zip(sten, nb):
            q = ite(e, x, (FNINF if M else FPINF) if st else v) if isinstance(e, T) else x if e else v
            v = (smax_ if M else smin_)(v, q) if st else ite(slt(v, q), q, v) if M else ite(slt(q, v), q, v)
        if st:
            l = fop('fadd', 32, (c, th)) if M else smax_(fop('fsub', 32, (c, th)), fc(0xff800000))
            return smin_(v, l) if M else smax_(v, l)
        l = add(c, th) if M else clamp0(sub(c, th))
        return smin(v, l) if M else smax(v, l)
    if fn == 'Median':
        return network(a, smin_, smax_) if st else network(a, smin, smax)
    if fn in ('Deflate', 'Inflate'):
        I = fn == 'Inflate'
        if st:
            s = nb[0]
            for x in nb[1:]: s = fop('fadd', 32, (s, x))
            v = fop('fmul', 32, (s, F32(.125)))
            v = smax_(v, c) if I else smin_(v, c)
            l = fop('fadd', 32, (c, th)) if I else smax_(fop('fsub', 32, (c, th)), fc(0xff800000))
            return smin_(v, l) if I else smax_(v, l)
        s = c32(4)
        for x in nb: s = add(s, x)
        v = lshr(s, c32(3)); v = smax(v, c) if I else smin(v, c)
        l = add(c, th) if I else clamp0(sub(c, th))
        return smin(v, l) if I else smax(v, l)
    k = c32(2); S = fn == 'Sobel'
    if st:
        F = lambda op, x, y: fop(op, 32, (x, y)); two = F32(2.); m = lambda x: F('fmul', x, two) if S else x
        gx = F('fsub', F('fsub', F('fsub', F('fadd', F('fadd', a[6], m(a[7])), a[8]), a[0]), m(a[1])), a[2])
        gy = F('fsub', F('fsub', F('fsub', F('fadd', F('fadd', a[2], m(a[5])), a[8]), a[0]), m(a[3])), a[6])
    else:
        m = lambda x: shl(x, c32(1)) if S else x
        gx = sub(sub(sub(add(add(a[6], m(a[7])), a[8]), a[0]), m(a[1])), a[2])
        gy = sub(sub(sub(add(add(a[2], m(a[5])), a[8]), a[0]), m(a[3])), a[6])
        gx, gy = [mk('cvt', 32, (g,), ('s', 32, 32)) for g in (gx, gy)]
    t = fop('fmul', 32, (fop('fsqrt', 32, (fop('fadd', 32, (fop('fmul', 32, (gx, gx)), fop('fmul', 32, (gy, gy)))),)), scale))
    return t if st else xr(t, 255 if bits == 8 else 65535)
def clamp0(v): return smax(v, c32(0))
def t_3x3(rec, fn, es, bits, st, cpu, th=0, coords=None, scale=0, proc=None, cf=1, lanes=None):
    c = point_clip(es, cf, bits, st); cfg = fmtfacts(c); planes = c.field('numPlanes').k; mx = (1 << bits) - 1; Z = 8 * es
    args = {'clip': clipargs(c), 'planes': fixed(*proc) if proc else fixed()}
    valid = TRUE; tv = c32(mx) if st == 0 else fc(0x7f7fffff); sten = [True] * 8; sc = F1
    pp = [p for p in range(planes) if not proc or p in proc]
    if fn in ('Minimum', 'Maximum', 'Deflate', 'Inflate'):
        a = floats('threshold', th); args['threshold'] = a
        if th:
            v = cvt('fptrunc', a['vals'][0], 32); fin = fcmp('olt', fabs(v), FPINF); tv = v
            if st: valid = band(fin, bnot(fcmp('olt', v, F0)))
            else:
                r_ = cvtll(v); P63 = fc(0x5f000000); N63 = fc(0xdf000000); r_ = ite(band(bnot(sfl(P63, v)), bnot(sfl(v, N63))), r_, ite(sfl(P63, v), const(2 ** 63 - 1, 64), const(2 ** 63, 64))); valid = band(fin, sle(c64(0), r_), sle(r_, c64(mx))); tv = zext(trunc(r_, 16), 32)
    if fn in ('Minimum', 'Maximum'):
        if coords is not None:
            vs_ = [c64(v) for v in coords] if isinstance(coords, (list, tuple)) else [var(f'coord{i}', 64) for i in range(coords)]
            args['coordinates'] = intlist_(vs_)
            if len(vs_) != 8: valid = FALSE
            sten = [v.k != 0 if isc(v) else ne(v, c64(0)) for v in vs_]
        else: args['coordinates'] = fixed()
    if fn in ('Prewitt', 'Sobel'):
        a = floats('scale', scale); args['scale'] = a
        if scale: sc = cvt('fptrunc', a['vals'][0], 32); valid = band(fpclass(sc, 0x1e0))
    for p in pp:
        w, h = (sh(c.field('width'), sub_of(c, p, 'w')), sh(c.field('height'), sub_of(c, p, 'h')))
        valid = band(valid, sle(c32(4), w), sle(c32(4), h))
    run = Run(mod(), fn, args, extra=cfg, cpu=cpu)
    thv = run_threshold = None
    def onframe(x, pc, n):
        dims(rec, run, x, pc, lambda p: (sh(c.field('width'), sub_of(c, p, 'w')), sh(c.field('height'), sub_of(c, p, 'h'))))
        W = outplanes(run, x.v)
        def spec(p, y, xx):
            w, h = zext(W[p][0], 64), zext(W[p][1], 64)
            if p not in pp: return srcpx(run, x.st, c, p, X64(n), y, xx)
            one = c64(1)
            ys = (ite(eq(y, Z64_), Z64_, sub(y, one)), y, ite(eq(y, sub(h, one)), sub(h, one), add(y, one)))
            xs = (ite(eq(xx, Z64_), Z64_, sub(xx, one)), xx, ite(eq(xx, sub(w, one)), sub(w, one), add(xx, one)))
            a = [srcpx(run, x.st, c, p, X64(n), yy, x_) for yy in ys for x_ in xs]
            if st and es == 2: a = [half2f(v) for v in a]
            if not st: a = [zext(v, 32) for v in a]
            r = op3(fn, a, st, bits, tv, sten, sc, None)
            if fn == 'Median' and not st: r = zext(network([trunc(v, Z) for v in a], umin, umax), 32)
            if st: return f2half(r, cpu) if es == 2 else r
            return trunc(umin(zext(trunc(r, Z), 32), c32(mx)), Z) if bits % 8 else trunc(r, Z)
        nbpix(rec, run, x, pc, spec, pp, bits, lanes)
        props_from(rec, run, x, pc, c, X64(n))
    drive(rec, run, valid, vi_same(c), onframe, cfg)
def nbpix(rec, run, x, pc, spec, pp, bits, lanes=None, rad=1):
    """pixel contract by cases: first / inner / last row and column; inside vectors one obligation per lane"""
    y = var('y', 64, 0, 1 << 31); xx = var('x', 64, 0, 1 << 31)
    for p, (w, h) in enumerate(outplanes(run, x.v)):
        w, h = zext(w, 64), zext(h, 64); hy = tuple(pc) + tuple(run.ex.facts) + (slt(y, h), slt(xx, w)); what = f'every pixel is the documented one (plane {p})'
        want = spec(p, y, xx); got = outpx(run, x.st, x.v, p, y, xx)
        lazy = (lambda *ts: {ult(u, const(1 << bits, u.w)) for t in ts for u in atoms(t, lambda q: q.op == 'uf' and q.w == 16)}) if bits % 8 else None
        if p not in pp: rec.prove(what, eq(got, want), hy); continue
        def cases(xx, m):
            l = sub(w, c64(1)); lh = sub(h, c64(1)); R = [(f'row {k}' if k else 'first row', eq(y, c64(k))) for k in range(rad)] + [(f'row {k + 1} from the last' if k else 'last row', eq(y, sub(lh, c64(k)))) for k in range(rad)] + [('inner rows', band(sle(c64(rad), y), slt(y, sub(h, c64(rad)))))]
            if not m: C = (('first column', eq(xx, Z64_)), ('last column', eq(xx, l)), ('inner columns', band(slt(Z64_, xx), slt(xx, l))))
            else:
                ve = and_(l, c64(-(1 << m))); v0 = and_(xx, c64(-(1 << m)))
                C = [(f'{a} {b}', band(d, e)) for a, d in (('only vector', band(eq(v0, Z64_), eq(ve, Z64_))), ('first vector', band(eq(v0, Z64_), ne(ve, Z64_))), ('last vector', band(eq(v0, ve), ne(v0, Z64_))), ('inner vectors', band(ne(v0, Z64_), slt(v0, ve))))
                     for b, e in (('last column', eq(xx, l)), ('other columns', slt(xx, l)))]
            return [(f'{a}, {b}', band(c, d)) for a, c in R for b, d in C]
        m = lanes_of(got, xx)
        if not m: prove_cases(rec, what, got, want, hy, cases(xx, 0), lazy=lazy); continue
        q = var('xq', 64, 0, 1 << 31)
        for j in range(1 << m):
            if lanes is not None and j not in (0, 1, (1 << m) - 1, *lanes): continue
            xj = add(scale(q, 1 << m), c64(j)); memo = {}; mp = {xx: xj}
            prove_cases(rec, f'{what} column = {j} mod {1 << m}', subst(got, mp, memo), subst(want, mp, memo), tuple(subst(t, mp, memo) for t in hy), cases(xj, m), lazy=lazy)
Z64_ = const(0, 64)
def cvtll(t): return mk('cvt', 64, (t,), 'llround')
def intlist_(vs_):
    def get(kd, i):
        if isc(i): return vs_[i.k] if i.k < len(vs_) else c64(0)
        r = c64(0)
        for j in range(len(vs_) - 1, -1, -1): r = ite(eq(i, const(j, i.w)), vs_[j], r)
        return r
    return {'count': c32(len(vs_) or -1), 'get': get, 'has': TRUE if vs_ else FALSE}
PATTERNS = ('10010110', '01000010', '00011000', '01011010', '01001011', '11110001', '00000000', '01111111', '00100000')
def tasks(tier):
    T = [('p07', 't_network', 'median network', {})]; deep = tier == 'thorough'
    def add_(n, **k): T.append(('p07', 't_3x3', n, k))
    for lv, cpu in levels():
        for es, bits, st in ((1, 8, 0), (2, 16, 0), (2, 10, 0), (4, 32, 1), (2, 16, 1)):
            d = f'{"float" if st else "int"}{bits}'
            for i, fn in enumerate(FNS):
                if not deep and ((bits == 10 and cpu not in (0, 2)) or (fn == 'Median' and cpu == 0 and not st and es == 2) or (es == 2 and st and cpu not in (0, 2)) or (cpu and fn in ('Maximum', 'Inflate', 'Prewitt') and (cpu + es) % 2) or (cpu == 3 and fn in ('Minimum', 'Deflate', 'Sobel') and es == 2) or (cpu == 1 and fn in ('Minimum', 'Sobel', 'Inflate') and es == 2)): continue
                add_(f'{fn} {lv} {d}', fn=fn, es=es, bits=bits, st=st, cpu=cpu, lanes=None if deep else (es * 3,) if cpu == 2 else ())
            if not deep and (cpu in (1, 2) or bits == 10 or cpu == 3 and es == 2 and not st): continue
            for fn in ('Minimum', 'Maximum', 'Deflate', 'Inflate'):
                if deep or (fn in ('Maximum', 'Deflate')) == (cpu == 0): add_(f'{fn} {lv} {d} with a threshold', fn=fn, es=es, bits=bits, st=st, cpu=cpu, th=1, lanes=(es * 5,) if deep else ())
            for fn in ('Prewitt', 'Sobel'):
                if deep or (fn == 'Sobel') == (cpu == 0): add_(f'{fn} {lv} {d} with a scale', fn=fn, es=es, bits=bits, st=st, cpu=cpu, scale=1, lanes=(es * 5,) if deep else ())
            for fn in ('Minimum', 'Maximum'):
                if not st and (deep or cpu == 0 and fn == 'Maximum' or cpu == 2 and fn == 'Minimum' and bits == 8): add_(f'{fn} {lv} {d} with coordinates', fn=fn, es=es, bits=bits, st=st, cpu=cpu, coords=8, lanes=(es * 5,) if deep else ())
                for i, pt in enumerate(PATTERNS):
                    if deep or (fn == 'Maximum') == (cpu == 0) and i < (1 if cpu == 0 or st else 2): add_(f'{fn} {lv} {d} with coordinates {pt}', fn=fn, es=es, bits=bits, st=st, cpu=cpu, coords=[int(q) * 3 for q in pt], lanes=(es * 5,) if deep else ())
    for k in (7, 9): add_(f'Minimum {k} coordinates', fn='Minimum', es=1, bits=8, st=0, cpu=0, coords=k)
    add_('Maximum planes [2, 0]', fn='Maximum', es=1, bits=8, st=0, cpu=1, cf=3, proc=[2, 0], lanes=(3,))
    if deep: add_('Median all planes', fn='Median', es=2, bits=16, st=0, cpu=2, cf=3, lanes=(3,))
    add_('Sobel planes [1]', fn='Sobel', es=4, bits=32, st=1, cpu=1, cf=3, proc=[1], lanes=(3,))
    return sorted(T, key=lambda t: 'Median none int' not in t[2])

# ------------------------------------------------------------------ concrete search
def halftol(w):
    import numpy as np
    return 2.0 ** -10 * np.abs(w.astype(np.float64)) + 2.0 ** -24
def oracle(x, S):
    from hc import expect, nplanes, ssof
    from p08 import okf
    import numpy as np
    fn = x['fn']; a = x['args']; s = S[0]; st, bits = s.fmt[1], s.fmt[2]; mx = (1 << bits) - 1; pl = procplanes(a); odt = s.planes(0)[0].dtype; N = range(nplanes(s.fmt)); tols = {}
    if pl is None or s.vary or not okf(s.fmt): return 'error'
    if any(pl[p] and min(q.shape) < 4 for p, q in enumerate(s.planes(0))): return 'error'
    th = mx if not st else np.float32(np.finfo(np.float32).max)
    if 'threshold' in a:
        t = a['threshold']
        with np.errstate(all='ignore'): t = np.float32(t)
        if not np.isfinite(t): return 'error'
        if st: 
            if t < 0: return 'error'
            th = t
        else:
            t = float(t); v = int(abs(t) + .5) * (1 if t >= 0 else -1)
            if v < 0 or v > mx: return 'error'
            th = v
    en = [1] * 8
    if 'coordinates' in a:
        if len(a['coordinates']) != 8: return 'error'
        en = [int(v != 0) for v in a['coordinates']]
    sc = 1.0
    if 'scale' in a:
        with np.errstate(all='ignore'): sc = float(np.float32(a['scale']))
        if not np.isfinite(sc) or sc < 0: return 'error'
    def g(i, p):
        v = s.planes(i)[p]
        if not pl[p]: return v
        h, w = v.shape
        P = np.pad(v.astype(np.float32) if st else v.astype(np.int64), 1, mode='edge'); n = [P[y:y + h, xx:xx + w] for y in range(3) for xx in range(3)]; c = n[4]; nb = n[:4] + n[5:]
        if fn in ('Minimum', 'Maximum'):
            f = np.maximum if fn == 'Maximum' else np.minimum; r = c
            for e, q in zip(en, nb):
                if e: r = f(r, q)
            with np.errstate(all='ignore'): l = c + th if fn == 'Maximum' else c - th
            return (np.minimum(r, l) if fn == 'Maximum' else np.maximum(r, l)).clip(*((None, None) if st else (0, mx))).astype(odt) if not st else (np.minimum(r, l) if fn == 'Maximum' else np.maximum(r, l)).astype(odt)
        if fn == 'Median': return np.sort(np.stack(n), axis=0)[4].astype(odt)
        if fn in ('Deflate', 'Inflate'):
            I = fn == 'Inflate'
            if st: 
                r = sum(q.astype(np.float64) for q in nb) / 8; tols[i, p] = 2.0 ** -21 * sum(np.abs(q.astype(np.float64)) for q in nb) / 8 + 1e-30
            else: r = (sum(nb) + 4) // 8
            r = np.maximum(r, c) if I else np.minimum(r, c)
            with np.errstate(all='ignore'): l = c + th if I else c - th
            r = np.minimum(r, l) if I else np.maximum(r, l)
            if not st: r = np.clip(r, 0, mx)
            return r.astype(odt)
        k = 2 if fn == 'Sobel' else 1; q = [z.astype(np.float64) for z in n]
        gx = q[6] + k * q[7] + q[8] - q[0] - k * q[1] - q[2]; gy = q[2] + k * q[5] + q[8] - q[0] - k * q[3] - q[6]
        with np.errstate(all='ignore'): r = np.sqrt(gx * gx + gy * gy) * sc
        if st:
            tols[i, p] = (2.0 ** -20 * sum(np.abs(z) for z in q) * k + 1e-22) * sc + 1e-30
            with np.errstate(all='ignore'): return r.astype(odt)
        r = np.clip(r, 0, mx); tols[i, p] = (np.abs(r - np.floor(r) - .5) < 1e-4 + r * 2.0 ** -20).astype(np.float64)
        return np.rint(r).astype(odt)
    def tola(i, p):
        t = tols.get((i, p), 0)
        if st and bits == 16 and pl[p]: return lambda w: t + halftol(w)
        return t
    return expect(s, planes=lambda i: [g(i, p) for p in N], tola=tola)
def gen(rng):
    from hc import gen_fmt, gen_dims, pick, LEVELS
    r = lambda a, b: int(rng.integers(a, b + 1))
    fn = pick(rng, *FNS)
    fmt = gen_fmt(rng, bits=(8, 8, 8, 9, 10, 12, 14, 15, 16, 16, 16) if r(0, 60) else (17, 32), pflt=.3)
    w, h = gen_dims(rng, fmt, big=.35, mn=4 << max(fmt[3:]) if r(0, 25) else 1); a = {}; st, bits = fmt[1], fmt[2]; mx = (1 << bits) - 1
    x = dict(fn=fn, level=pick(rng, *LEVELS), frames=[r(0, 9), 0], args=a, cont=r(0, 3))
    x['srcs'] = [(r(0, 1 << 30), fmt, w, h, r(1, 3), pick(rng, (24, 1), (30000, 1001)), r(0, 200) == 0)]
    if r(0, 2) == 0:
        a['planes'] = [i for i in rng.permutation(3).tolist() if r(0, 1)] or [0]
        if r(0, 30) == 0: a['planes'] = a['planes'] + [pick(rng, 3, -1, a['planes'][0], 1 << 32)]
    if fn in ('Minimum', 'Maximum', 'Deflate', 'Inflate') and r(0, 2):
        a['threshold'] = (pick(rng, 0., .25, .5, 1., float(rng.random()), float(rng.random()) * .1, 1e30) if st else float(pick(rng, 0, 1, mx, mx - 1, r(0, mx), r(0, mx), r(0, mx) // 8, r(0, mx) * .125 + .5, mx + .49))) if r(0, 25) else pick(rng, -1., -.6, float(mx + 1), mx + .5, float('inf'), float('nan'), 1e300)
        if not st and -.5 > a['threshold'] > -1: a['threshold'] = -1.
    if fn in ('Minimum', 'Maximum') and r(0, 1): a['coordinates'] = pick(rng, [r(0, 1) for _ in range(8)], [r(0, 1) for _ in range(8)], [0, 1, 0, 1, 1, 0, 1, 0], [0, 1, 0, 0, 0, 0, 1, 0], [0, 0, 0, 1, 1, 0, 0, 0], [1, 0, 1, 0, 0, 1, 0, 1], [1] * 8, [0] * 8, [pick(rng, 0, 0, 2, -1, 1 << 32, 256) for _ in range(8)], [1] * (7 if r(0, 5) == 0 else 8), [0, 1] * (5 if r(0, 5) == 0 else 4))
    if fn in ('Prewitt', 'Sobel') and r(0, 2): a['scale'] = pick(rng, 0., .5, 1., 2., float(rng.random() * 3), float(10.0 ** r(-4, 4)), 1e9, 1e30) if r(0, 25) else pick(rng, -1., -.001, float('inf'), float('nan'), 1e300)
    return x
def srckw(x):
    """smooth, sparse or random contents so that thresholds and edges matter"""
    k = x.get('cont', 0)
    if k < 2: return {}
    def content(rng, st, bits, h, w, ch):
        import numpy as np
        mx = (1 << bits) - 1; amp = float(rng.choice([.01, .05, .3, 1.]))
        v = np.clip((rng.random() if k == 2 else np.linspace(0, 1, w)[None, :] * np.linspace(0, 1, h)[:, None]) + (rng.random((h, w)) - .5) * amp, 0, 1)
        if k == 2 and rng.integers(0, 2): v = np.where(rng.random((h, w)) < .05, 1 - v, v)
        return v.astype(np.float16 if bits == 16 else np.float32) if st else np.rint(v * mx).astype(np.uint8 if bits <= 8 else np.uint16 if bits <= 16 else np.uint32)
    return dict(content=content)
def run_case(x):
    from hc import filter_case
    return filter_case(x, oracle, srckw=srckw)
def hunt(H):
    from hc import hunt_cases
    hunt_cases(H, gen, run_case, ())
def rerun(x):
    from hc import case_of
    return run_case(case_of(x))
