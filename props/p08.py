"""P08 per-sample filters: Invert, InvertMask, Limiter, Binarize, BinarizeMask, Levels, Lut, Lut2."""
from common import *
from p03 import sub_of, sh, X64
from p05 import fc, F1, F0, FH, cvt, half2f, f2half, clampn, procplanes, levels, pix
LEVEL = 'proof'
G = 'src/core/genericfilters.cpp'; L_ = 'src/core/lutfilters.cpp'; LK = 'src/core/kernel/x86/lut_avx512.cpp'
HUNT_S = {'quick': 20, 'thorough': 240}; HUNT_PARTS = 4
TASK_S = {'quick': 200, 'thorough': 1200}
def gmod(): return FilterMod(G, r'^genericInitialize\(')
def lmod(): return FilterMod((L_, (LK, 'x86-64-v4')), r'^lutInitialize\(')

def floats(name, k):
    vs_ = [var(f'arg.{name}{j}', 64) for j in range(k)]
    def get(kd, i):
        if isc(i): return vs_[i.k] if i.k < k else c64(0)
        r = c64(0)
        for j in range(k - 1, -1, -1): r = ite(eq(i, const(j, i.w)), vs_[j], r)
        return r
    return {'count': c32(k or -1), 'get': get, 'has': TRUE if k else FALSE, 'vals': vs_}
def F64(v): import struct; return const(struct.unpack('<Q', struct.pack('<d', v))[0], 64)
def F32(v): import struct; return const(struct.unpack('<I', struct.pack('<f', v))[0], 32)
def range_args(arg, cf, bits, st, planes, mode, mask):
    """(per-plane values, validity) of a per-plane sample value argument"""
    vs_ = arg['vals']; out = []; ok = [TRUE if len(vs_) <= planes else FALSE]; mx = (1 << bits) - 1
    for p in range(3):
        uv = not mask and p > 0 and cf == 3
        if p < len(vs_):
            if st == 0:
                t = cvt('fptosi', fop('fadd', 64, (vs_[p], F64(.5))), 64); ok.append(band(sle(c64(0), t), sle(t, c64(mx)))); out.append(trunc(t, 16))
            else: out.append(cvt('fptrunc', vs_[p], 32))
        elif p and vs_: out.append(out[-1])
        elif st == 0: out.append(const({'lo': 0, 'hi': mx, 'mid': 1 << (bits - 1)}[mode], 16))
        else: out.append(F32({'lo': -.5 if uv else 0., 'hi': .5 if uv else 1., 'mid': 0. if uv else .5}[mode]))
    return out, band(*ok)
def point_clip(es, cf, bits, st):
    c = vclip('clip', es, 1 if cf == 1 else 3, st=st, bits=bits); c.f['colorFamily'] = c32(cf)
    if cf == 2: c.f['subSamplingW'] = c.f['subSamplingH'] = c32(0)
    return c
def t_point(rec, fn, es, cf, bits, st, k=0, proc=None, mixed=None):
    c = point_clip(es, cf, bits, st); cfg = fmtfacts(c); planes = c.field('numPlanes').k; mx = (1 << bits) - 1; mask = fn.endswith('Mask'); Z = 8 * es
    args = {'clip': clipargs(c), 'planes': fixed(*proc) if proc else fixed()}; valid = TRUE
    ks = mixed or (k,) * 3
    if fn == 'Limiter':
        a0, a1 = floats('min', ks[0]), floats('max', ks[1]); args.update(min=a0, max=a1)
        lo, v0 = range_args(a0, cf, bits, st, planes, 'lo', False); hi, v1 = range_args(a1, cf, bits, st, planes, 'hi', False)
        valid = band(v0, v1, *[bnot(fcmp('ogt', a, b)) if st else bnot(ult(b, a)) for a, b in zip(lo, hi)])
    if fn.startswith('Binarize'):
        av = {q: floats(q, ks[i]) for i, q in enumerate(('v0', 'v1', 'threshold'))}; args.update(av)
        (w0, x0), (w1, x1), (th, x2) = [range_args(av[q], cf, bits, st, planes, m_, mask) for q, m_ in (('v0', 'lo'), ('v1', 'hi'), ('threshold', 'mid'))]
        valid = band(x0, x1, x2)
    run = Run(gmod(), fn, args, extra=cfg)
    def onframe(x, pc, n):
        dims(rec, run, x, pc, lambda p: (sh(c.field('width'), sub_of(c, p, 'w')), sh(c.field('height'), sub_of(c, p, 'h'))))
        def spec(p, y, xx):
            u = srcpx(run, x.st, c, p, X64(n), y, xx); s = u
            if proc and p not in proc: return u
            uv = cf == 3 and p > 0 and not mask
            if st and es == 2: u = half2f(u)
            if fn.startswith('Invert'):
                if st == 0: return sub(const(mx, Z), umin(s, const(mx, Z)))
                if uv: return xor(s, const(0x8000, 16)) if es == 2 else mk('fneg', 32, (s,))
                r = fop('fsub', 32, (F1, u))
            elif fn == 'Limiter':
                if st == 0: return umin(trunc(hi[p], Z), umax(trunc(lo[p], Z), s))
                t = ite(fcmp('olt', lo[p], u), u, lo[p]); r = ite(fcmp('olt', t, hi[p]), t, hi[p])
            else:
                if st == 0: return ite(ult(zext(s, 16), th[p]), trunc(w0[p], Z), trunc(w1[p], Z))
                f = (lambda q: f2half(q, 0)) if es == 2 else (lambda q: q)
                return ite(fcmp('olt', u, th[p]), f(w0[p]), f(w1[p]))
            return f2half(r, 0) if es == 2 else r
        pix(rec, run, x, pc, spec, [], n, bits)
        props_from(rec, run, x, pc, c, X64(n))
    drive(rec, run, valid, vi_same(c), onframe, cfg)

def lutarg(name, n, bits):
    """a table of n integers; entry i is an uninterpreted function of i"""
    g = lambda kd, i: uf(f'lut.{name}', 64, (zext(i, 64) if i.w < 64 else i,))
    return {'count': n if not isinstance(n, int) else c32(n), 'get': g, 'has': TRUE}
def t_lut(rec, bi, bo, cpu, cf=1, proc=None, floatout=False, count=None):
    es = 1 if bi == 8 else 2; oes = 4 if floatout else 1 if bo == 8 else 2
    c = point_clip(es, cf, bi, 0); cfg = fmtfacts(c); planes = 1 if cf == 1 else 3
    cnt = c32(1 << bi) if count is None else count
    tab = lutarg('t', cnt, bi); args = {'clip': clipargs(c), 'planes': fixed(*proc) if proc else fixed(), 'bits': fixed(bo), 'floatout': fixed(1) if floatout else fixed(), 'lutf' if floatout else 'lut': tab}
    none = {'count': c32(-1), 'get': lambda k, i: c64(0), 'has': FALSE}; args['lut' if floatout else 'lutf'] = none; args['function'] = none
    run = Run(lmod(), 'Lut', args, extra=cfg, cpu=cpu); mx = (1 << bo) - 1
    def onframe(x, pc, n):
        def spec(p, y, xx):
            u = srcpx(run, x.st, c, p, X64(n), y, xx)
            if proc and p not in proc: return u
            i = zext(umin(u, const((1 << bi) - 1, u.w)), 64); v = tab['get']('int', i)
            return cvt('fptrunc', v, 32) if floatout else trunc(v, 8 * oes)
        pix(rec, run, x, pc, spec, [c] if not (es == 1) else [], n, bi)
        props_from(rec, run, x, pc, c, X64(n))
    allp = not proc or len([p for p in proc if p < planes]) == planes
    drive(rec, run, None if not floatout and not count else None, vi_same(c, bitsPerSample=c32(bo), bytesPerSample=c32(oes), sampleType=c32(int(floatout))), onframe, cfg)
def t_lut2(rec, ba, bb, bo, cpu, cf=1, proc=None, floatout=False):
    a = point_clip(1 if ba == 8 else 2, cf, ba, 0); a.name = 'a'; b = vclip('b', 1 if bb == 8 else 2, 1 if cf == 1 else 3, st=0, bits=bb, **{f: a.field(f) for f in ('colorFamily', 'subSamplingW', 'subSamplingH', 'width', 'height')})
    a = vclip('a', 1 if ba == 8 else 2, 1 if cf == 1 else 3, st=0, bits=ba, **{f: b.field(f) for f in ('colorFamily', 'subSamplingW', 'subSamplingH', 'width', 'height')})
    cfg = fmtfacts(a); oes = 4 if floatout else 1 if bo == 8 else 2
    tab = lutarg('t', c32(1 << (ba + bb)), ba); none = {'count': c32(-1), 'get': lambda k, i: c64(0), 'has': FALSE}
    args = {'clipa': clipargs(a), 'clipb': clipargs(b), 'planes': fixed(*proc) if proc else fixed(), 'bits': fixed(bo), 'floatout': fixed(1) if floatout else fixed(), 'lutf' if floatout else 'lut': tab, 'lut' if floatout else 'lutf': none, 'function': none}
    run = Run(lmod(), 'Lut2', args, extra=cfg, cpu=cpu)
    def onframe(x, pc, n):
        def spec(p, y, xx):
            u, v = srcpx(run, x.st, a, p, X64(n), y, xx), srcpx(run, x.st, b, p, X64(clampn(b, n)), y, xx)
            if proc and p not in proc: return u
            u, v = [zext(umin(q, const((1 << k) - 1, q.w)), 64) for q, k in ((u, ba), (v, bb))]
            e = tab['get']('int', add(shl(v, c64(ba)), u))
            return cvt('fptrunc', e, 32) if floatout else trunc(e, 8 * oes)
        pix(rec, run, x, pc, spec, [], n, bo)
        props_from(rec, run, x, pc, a, X64(n))
    drive(rec, run, None, vi_same(a, bitsPerSample=c32(bo), bytesPerSample=c32(oes), sampleType=c32(int(floatout))), onframe, cfg)
from intrin import fabs as FABS
def fl(name, *a): return mk('fun', a[0].w, tuple(a), name)
def fmin_(a, b): return ite(fcmp('olt', b, a), b, a)
def fmax_(a, b): return ite(fcmp('olt', a, b), b, a)
def t_levels(rec, es, cf, bits, st, k, proc=None):
    c = point_clip(es, cf, bits, st); cfg = fmtfacts(c); planes = c.field('numPlanes').k; mx = (1 << bits) - 1
    names = ('min_in', 'max_in', 'gamma', 'min_out', 'max_out'); av = {q: floats(q, k) for q in names}
    top = F32(float(mx) if st == 0 else 1.0); dflt = dict(min_in=F0, max_in=top, gamma=F1, min_out=F0, max_out=top)
    val = {}
    for q in names:
        t = [cvt('fptrunc', v, 32) for v in av[q]['vals']] or [dflt[q]]
        val[q] = (t + [t[-1]] * 3)[:3]
    pp = [p for p in range(planes) if not proc or p in proc]
    fs = lambda a, b: fop('fsub', 32, (a, b)); fa = lambda a, b: fop('fadd', 32, (a, b)); fm = lambda a, b: fop('fmul', 32, (a, b)); fd = lambda a, b: fop('fdiv', 32, (a, b))
    run = Run(gmod(), 'Levels', dict(av, clip=clipargs(c), planes=fixed(*proc) if proc else fixed()), extra=cfg)
    def lut(p, v):
        r = {q: fl('round', val[q][p]) for q in names}; g = fd(F1, val['gamma'][p])
        t = fmax_(fs(fmin_(mk('cvt', 32, (zext(v, 32),), ('s', 32, 32)), r['max_in']), r['min_in']), F0)
        e = fa(fm(fl('pow', fd(t, fs(r['max_in'], r['min_in'])), g), fs(r['max_out'], r['min_out'])), r['min_out'])
        return cvt('fptoui', fa(fmax_(fmin_(e, top), F0), FH), 8 * es)
    def onframe(x, pc, n):
        def spec(p, y, xx):
            u = srcpx(run, x.st, c, p, X64(n), y, xx)
            if p not in pp: return u
            if st == 0: return lut(p, umin(u, const(mx, u.w)))
            w = half2f(u) if es == 2 else u; v = {q: val[q][p] for q in names}; g = fd(F1, v['gamma'])
            t = fmax_(fs(fmin_(w, v['max_in']), v['min_in']), F0); ro = fs(v['max_out'], v['min_out']); ri = fs(v['max_in'], v['min_in'])
            lin = fa(fm(t, fd(ro, ri)), v['min_out']); gen = fa(fm(fl('pow', fm(t, fd(F1, ri)), g), ro), v['min_out'])
            r = ite(fcmp('olt', FABS(fs(g, F1)), F32(1.1920928955078125e-07)), lin, gen)
            return f2half(r, 0) if es == 2 else r
        pix(rec, run, x, pc, spec, [c], n, bits)
        props_from(rec, run, x, pc, c, X64(n))
    drive(rec, run, None if k <= planes else FALSE, vi_same(c), onframe, cfg)
def tasks(tier):
    T = []; deep = tier == 'thorough'; add_ = lambda f, n, **k: T.append(('p08', f, n, k))
    fm = ((1, 8, 0), (2, 16, 0), (2, 10, 0), (2, 16, 1), (4, 32, 1)) + (((2, 9, 0), (2, 12, 0), (2, 14, 0)) if deep else ())
    for es, bits, st in fm:
        d = f'{"float" if st else "int"}{bits}'
        for cf in (1, 3) + ((2,) if deep else ()):
            for fn in ('Invert', 'InvertMask', 'Limiter', 'Binarize', 'BinarizeMask'):
                if deep or cf == 3 or (st, bits) in ((0, 8), (1, 32)): add_('t_point', f'{fn} {d} cf={cf}', fn=fn, es=es, cf=cf, bits=bits, st=st)
            if cf == 3: add_('t_point', f'Invert {d} planes', fn='Invert', es=es, cf=cf, bits=bits, st=st, proc=[2, 0])
        for k in (1, 2, 3):
            if deep or k == 2 or bits != 10:
                add_('t_point', f'Limiter {d} {k} values', fn='Limiter', es=es, cf=3, bits=bits, st=st, k=k); add_('t_point', f'Binarize {d} {k} values', fn='Binarize', es=es, cf=3, bits=bits, st=st, k=k)
        add_('t_point', f'Limiter {d} too many values', fn='Limiter', es=es, cf=1, bits=bits, st=st, k=2)
        if deep or bits in (8, 32): add_('t_point', f'Binarize {d} mixed values', fn='Binarize', es=es, cf=2, bits=bits, st=st, mixed=(0, 2, 1))
    for bi, bo in ((8, 8), (8, 16), (16, 8), (10, 16), (10, 10), (16, 12), (16, 16)) if deep else ((8, 8), (8, 16), (16, 8), (10, 10)):
        for lv, cpu in (('none', 0), ('avx512', 3)): add_('t_lut', f'Lut {lv} {bi} to {bo} bit', bi=bi, bo=bo, cpu=cpu)
    add_('t_lut', 'Lut planes [1]', bi=8, bo=8, cpu=0, cf=3, proc=[1]); add_('t_lut', 'Lut float output', bi=8, bo=32, cpu=0, floatout=True)
    for ba, bb, bo in ((8, 8, 8), (8, 8, 16), (10, 8, 8), (8, 12, 16), (10, 10, 10), (8, 12, 8)):
        for lv, cpu in (('none', 0), ('avx512', 3)): add_('t_lut2', f'Lut2 {lv} {ba}+{bb} to {bo} bit', ba=ba, bb=bb, bo=bo, cpu=cpu)
    add_('t_lut2', 'Lut2 planes [0, 2]', ba=8, bb=8, bo=8, cpu=0, cf=3, proc=[0, 2]); add_('t_lut2', 'Lut2 float output', ba=8, bb=8, bo=32, cpu=0, floatout=True)
    for es, bits, st in ((1, 8, 0), (2, 16, 0), (2, 10, 0), (2, 16, 1), (4, 32, 1)):
        for k in (0, 1): add_('t_levels', f'Levels {"float" if st else "int"}{bits} {k} values', es=es, cf=1, bits=bits, st=st, k=k)
    add_('t_levels', 'Levels 2 values', es=1, cf=3, bits=8, st=0, k=2, proc=[0, 2]); add_('t_levels', 'Levels too many values', es=1, cf=1, bits=8, st=0, k=2)
    return sorted(T, key=lambda t: t[2] != 'Lut avx512 8 to 8 bit')   # the slowest one first

# ------------------------------------------------------------------ concrete search
def okf(f): return f[2] <= 16 if f[1] == 0 else True
def prange(vals, fmt, mode, mask, np):
    """per-plane value of a range argument: list | 'error' | None (unspecified)"""
    st, bits = fmt[1], fmt[2]; mx = (1 << bits) - 1; vals = vals or []; out = []
    if len(vals) > (1 if fmt[0] == 1 else 3): return 'error'
    for p in range(3):
        uv = fmt[0] == 3 and p and not mask
        if p < len(vals):
            v = vals[p]
            if st == 0:
                if -1.5 < v < -0.5: return None
                t = int(v + .5)
                if t < 0 or t > mx: return 'error'
                out.append(t)
            else: out.append(np.float32(v))
        elif p and vals: out.append(out[-1])
        elif st == 0: out.append({'lo': 0, 'hi': mx, 'mid': 1 << (bits - 1)}[mode])
        else: out.append(np.float32({'lo': -.5 if uv else 0., 'hi': .5 if uv else 1., 'mid': 0. if uv else .5}[mode]))
    return out
def table(x, n, mx):
    """the look-up table of a case"""
    import numpy as np
    r = np.random.default_rng(x['tab'])
    return r.integers(0, mx + 1, n) if mx else (r.random(n) * 4 - 2).astype(np.float32).astype(np.float64)
def oracle(x, S):
    from hc import expect, nplanes
    import numpy as np
    fn = x['fn']; a = x['args']; s = S[0]; st, bits = s.fmt[1], s.fmt[2]; mx = (1 << bits) - 1; pl = procplanes(a); odt = s.planes(0)[0].dtype; N = range(nplanes(s.fmt))
    if pl is None or any(q.vary for q in S): return 'error'
    if fn.startswith('Lut'):
        two_ = fn == 'Lut2'; fo = a.get('floatout', 0) != 0; bo = a.get('bits', 32 if fo else bits)
        if st or bits > 16 or (two_ and (S[1].fmt[1] or S[1].fmt[3:] != s.fmt[3:] or (S[1].w, S[1].h) != (s.w, s.h) or bits + S[1].fmt[2] > 20)): return 'error'
        if (fo and bo != 32) or (not fo and not 8 <= bo <= 16): return 'error'
        obps = 4 if fo else 1 if bo == 8 else 2
        if any(not pl[p] for p in N) and obps != (1 if bits == 8 else 2): return 'error'
        if two_ and any(pl[p] and p >= nplanes(S[1].fmt) for p in N): return 'error'
        if x['kind_'] != ('lutf' if fo else 'lut'): return 'error'
        n = 1 << (bits + (S[1].fmt[2] if two_ else 0))
        if x['len'] != n: return 'error'
        if x['bad'] is not None: return 'error'
        tab = table(x, n, 0 if fo else (1 << bo) - 1); d = np.float32 if fo else np.uint8 if bo == 8 else np.uint16
        def g(i, p):
            if not pl[p]: return s.planes(i)[p]
            k = np.minimum(s.planes(i)[p].astype(np.int64), mx)
            if two_: t = S[1]; k = k + (np.minimum(t.planes(min(i, t.n - 1))[p].astype(np.int64), (1 << t.fmt[2]) - 1) << bits)
            return tab[k].astype(d)
        return expect(s, fmt=(s.fmt[0], int(fo), bo) + s.fmt[3:], planes=lambda i: [g(i, p) for p in N])
    if not okf(s.fmt): return 'error'
    if fn in ('Invert', 'InvertMask'):
        def g(i, p):
            v = s.planes(i)[p]
            if not pl[p]: return v
            if st == 0: return (mx - np.minimum(v, mx)).astype(odt)
            v = v.astype(np.float32)
            return (-v if p and s.fmt[0] == 3 and fn == 'Invert' else np.float32(1) - v).astype(odt)
        return expect(s, planes=lambda i: [g(i, p) for p in N], tol=0 if bits == 32 or st == 0 else lambda w: 2.0 ** -10 * np.abs(w.astype(np.float64)) + 2.0 ** -24)
    tolh = None if st == 0 else 0 if bits == 32 else lambda w: 2.0 ** -10 * np.abs(w.astype(np.float64)) + 2.0 ** -24
    if fn == 'Limiter' or fn.startswith('Binarize'):
        mask = fn.endswith('Mask')
        R = [prange(a.get(q), s.fmt, m_, mask, np) for q, m_ in ((('min', 'lo'), ('max', 'hi')) if fn == 'Limiter' else (('v0', 'lo'), ('v1', 'hi'), ('threshold', 'mid')))]
        if any(isinstance(r, str) for r in R): return 'error'
        if any(r is None for r in R): return None
        if fn == 'Limiter' and any(R[0][p] > R[1][p] for p in range(3)): return 'error'
        def g(i, p):
            v = s.planes(i)[p]
            if not pl[p]: return v
            u = v.astype(np.float32) if st else v.astype(np.int64)
            return (np.minimum(np.maximum(u, R[0][p]), R[1][p]) if fn == 'Limiter' else np.where(u < R[2][p], R[0][p], R[1][p])).astype(odt)
        return expect(s, planes=lambda i: [g(i, p) for p in N], tol=tolh)
    if fn == 'Levels':
        top = 1.0 if st else float(mx); V = {}
        for q, d in (('min_in', 0.), ('max_in', top), ('gamma', 1.), ('min_out', 0.), ('max_out', top)):
            v = a.get(q) or [d]
            if len(v) > len(N): return 'error'
            V[q] = [np.float64(np.float32(t)) for t in (v + [v[-1]] * 3)[:3]]
        for p in N:
            if not pl[p]: continue
            v = {q: V[q][p] for q in V}
            if not all(np.isfinite(list(v.values()))) or v['max_in'] <= v['min_in'] or v['gamma'] <= 0: return 'error'
            if st == 0 and np.round(np.abs(v['max_in'])) == np.round(np.abs(v['min_in'])) and v['min_in'] * v['max_in'] >= 0 and abs(v['max_in'] % 1) != .5 and abs(v['min_in'] % 1) != .5: return 'error'
            if st == 0 and abs(rnd(v['max_in']) - rnd(v['min_in'])) < 1: return 'error'
        def val(i, p):
            u = s.planes(i)[p].astype(np.float64); v = {q: V[q][p] for q in V}
            if st == 0: u = np.minimum(u, mx); v = {q: rnd(z) if q != 'gamma' else z for q, z in v.items()}
            t = np.maximum(np.minimum(u, v['max_in']) - v['min_in'], 0) / (v['max_in'] - v['min_in'])
            return t ** (1 / v['gamma']) * (v['max_out'] - v['min_out']) + v['min_out'], v
        def g(i, p):
            if not pl[p]: return s.planes(i)[p]
            r, _ = val(i, p)
            return (np.floor(np.clip(r, 0, mx) + .5) if st == 0 else r).astype(odt)
        def tola(i, p):
            if not pl[p]: return 0
            r, v = val(i, p); sc = np.abs(v['max_out']) + np.abs(v['min_out']) + np.abs(r)
            e = sc * 2.0 ** -18 * (1 + 1 / v['gamma']) * (1 if st == 0 else 2)
            m = max(abs(v['max_in']), abs(v['min_in'])) / (v['max_in'] - v['min_in'])   # cancellation in the input range
            e = e * max(1, m) if m < 1e3 else 1e9
            if st == 0:
                c = np.clip(r, 0, mx) + .5; return np.where(np.abs(c - np.round(c)) <= e, 1 + e, 0)
            return e + (2.0 ** -10 * np.abs(r) + 2.0 ** -24 if bits == 16 else 0)
        return expect(s, planes=lambda i: [g(i, p) for p in N], tola=tola)
def rnd(v):
    """round half away from zero"""
    import math
    return math.copysign(math.floor(abs(v) + .5), v)
def gen(rng):
    from hc import gen_fmt, gen_dims, pick, LEVELS
    r = lambda a, b: int(rng.integers(a, b + 1))
    fn = pick(rng, 'Invert', 'InvertMask', 'Limiter', 'Limiter', 'Binarize', 'Binarize', 'BinarizeMask', 'Levels', 'Levels', 'Lut', 'Lut', 'Lut', 'Lut2', 'Lut2', 'Lut2')
    lut = fn.startswith('Lut')
    fmt = gen_fmt(rng, bits=((8, 8, 8, 9, 10, 10, 11, 12, 16) if fn != 'Lut2' else (8, 8, 8, 9, 10, 10, 11, 12)) if lut and r(0, 40) else (8, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16) if r(0, 40) else (17, 32), pflt=0.02 if lut else 0.35)
    w, h = gen_dims(rng, fmt, big=0.4); a = {}; st, bits = fmt[1], fmt[2]; mx = (1 << bits) - 1; npl = 1 if fmt[0] == 1 else 3
    x = dict(fn=fn, level=pick(rng, *LEVELS), frames=[r(0, 9), 0], oor=int(r(0, 5) == 0)); n = r(1, 3)
    S = [(r(0, 1 << 30), fmt, w, h, n, pick(rng, (24, 1), (30000, 1001)), r(0, 150) == 0 and not fn.startswith('Invert'))]
    if r(0, 2) == 0:
        a['planes'] = [i for i in rng.permutation(3).tolist() if r(0, 1)] or [0]
        if r(0, 30) == 0: a['planes'] = a['planes'] + [pick(rng, 3, -1, a['planes'][0], 1 << 32)]
    if fn == 'Lut2':
        bb = pick(rng, *[b for b in (8, 8, 9, 10, 11, 12) if b + bits <= 20] or [8]) if r(0, 40) else pick(rng, 12, 16); f2 = (fmt[0] if r(0, 15) else pick(rng, 1, 2, 3), 0, bb) + fmt[3:]
        if f2[0] != 3: f2 = f2[:3] + (0, 0)
        S.append((r(0, 1 << 30), f2, w + (0 if r(0, 60) else 4), h, r(1, 3), (24, 1), False))
    x['srcs'] = S
    if lut:
        fo = r(0, 5) == 0
        if fo or r(0, 20) == 0: a['floatout'] = int(fo)
        bo = 32 if fo else bits
        if r(0, 2): bo = a['bits'] = (32 if r(0, 30) else 16) if fo else pick(rng, *([8, 8, 9, 10, 12, 15, 16, 16] if r(0, 20) else [7, 17, 32, 0]))
        x['kind_'] = pick(rng, 'lut', 'lutf') if r(0, 60) == 0 else 'lutf' if fo else 'lut'
        n_ = 1 << min(20, bits + (S[1][1][2] if fn == 'Lut2' else 0)); x['len'] = n_ if r(0, 40) else n_ + pick(rng, -1, 1)
        x['tab'] = r(0, 1 << 30); x['mx'] = 0 if fo else (1 << max(0, min(bo, 16))) - 1; x['bad'] = None
        if x['kind_'] == 'lut' and r(0, 25) == 0: x['bad'] = [r(0, x['len'] - 1), pick(rng, -1, x['mx'] + 1, 1 << 32)]
    def sv(lo=None):
        if st: return pick(rng, 0.0, 1.0, -.5, .5, float(np_round(rng.random() * 2 - .7)), float(np_round(rng.random())))
        return float(pick(rng, 0, mx, r(0, mx), r(0, mx), 1 << (bits - 1), r(0, mx) + .5, r(0, mx) + .49))
    if fn == 'Limiter' or fn.startswith('Binarize'):
        for q in ('min', 'max') if fn == 'Limiter' else ('v0', 'v1', 'threshold'):
            if r(0, 2):
                a[q] = [sv() for _ in range(r(1, npl))]
                if r(0, 40) == 0: a[q] = a[q] + [sv()] * 3
                if r(0, 40) == 0: a[q][-1] = pick(rng, -1.5, -2., float(mx + 1), mx + .5, 1e30)
        if fn == 'Limiter' and 'min' in a and 'max' in a and r(0, 8):
            k = min(len(a['min']), len(a['max'])); lo = [min(p, q) for p, q in zip(a['min'], a['max'])]; a['max'] = [max(p, q) for p, q in zip(a['min'], a['max'])]; a['min'] = lo
    if fn == 'Levels':
        for q in ('min_in', 'max_in', 'gamma', 'min_out', 'max_out'):
            if r(0, 2):
                f = (lambda: pick(rng, 1., .5, 2., float(rng.random() * 3 + .1), 1.2, 10., 1.005, .995, 1.0000004)) if q == 'gamma' else sv
                a[q] = [f() for _ in range(r(1, npl))]
                if r(0, 60) == 0: a[q] = a[q] + [f()] * 3
                if r(0, 60) == 0: a[q][-1] = pick(rng, float('inf'), float('nan'), 0.0, -1.)
        if 'min_in' in a and 'max_in' in a and r(0, 8):
            lo = [min(p, q) for p, q in zip(a['min_in'], a['max_in'])]; a['max_in'] = [max(p, q) for p, q in zip(a['min_in'], a['max_in'])]; a['min_in'] = lo
    x['args'] = a; return x
def np_round(v): return float(int(v * 64)) / 64 if int(v * 1e6) % 3 else v
def srckw(x):
    if not x.get('oor'): return {}
    def content(rng, st, bits, h, w, ch):
        import vs, numpy as np
        if st or bits in (8, 16, 32): return vs.randplane(rng, st, bits, h, w, ch)
        return rng.choice(np.array([0, (1 << bits) - 1, 1 << bits, (1 << bits) + 1, 65535, int(rng.integers(0, 65536))], dtype=np.uint16 if bits <= 16 else np.uint32), (h, w))
    return dict(content=content)
def clips(x, S):
    d = dict(clipa=S[0].node, clipb=S[1].node) if x['fn'] == 'Lut2' else dict(clip=S[0].node)
    if x['fn'].startswith('Lut'):
        t = table(x, x['len'], x['mx'] if x['kind_'] == 'lut' else 0)
        if x['kind_'] == 'lut' and not x['mx']: t = t * 0
        if x['bad'] is not None: t[x['bad'][0]] = x['bad'][1]
        d[x['kind_']] = t
    return d
def run_case(x):
    from hc import filter_case
    if x.get('oor') and x['fn'] in ('Limiter', 'Binarize', 'BinarizeMask', 'Levels'): x = dict(x, oor=0)
    return filter_case(x, oracle, clipkey=clips, srckw=srckw)
def hunt(H):
    from hc import hunt_cases
    hunt_cases(H, gen, run_case, ())
def rerun(x):
    from hc import case_of
    return run_case(case_of(x))
