"""P06 Convolution."""
from common import *
from p03 import sub_of, sh, X64
from p05 import fc, F1, F0, FH, cvt, half2f, f2half, procplanes, levels
from intrin import fabs, fpclass
from p08 import floats, F64, F32, point_clip, okf
from p07 import SRC as SRC7, halftol, nbpix, FPINF, xr
LEVEL = 'proof'
import term; term.OPT.update(fminmax='value', freal=True)
HUNT_S = {'quick': 45, 'thorough': 400}; HUNT_PARTS = 5
TASK_S = {'quick': 150, 'thorough': 1200}
def lrnd(v): return mk('fun', v.w, (v,), 'round')
K_ = 'src/core/kernel/x86/'
SRC = SRC7[:3] + (K_ + 'convolution_sse2.cpp',) + SRC7[3:] + ((K_ + 'convolution_avx2.cpp', 'x86-64-v3'), (K_ + 'convolution_avx512.cpp', 'x86-64-v4'))
def mod(): return FilterMod(SRC, r'^genericInitialize\(')
Z64_ = const(0, 64)
def t_conv(rec, es, bits, st, cpu, n=9, mode='s', div=0, bias=0, sat=None, cf=1, proc=None, lanes=None, conc=None):
    c = point_clip(es, cf, bits, st); cfg = fmtfacts(c); planes = c.field('numPlanes').k; mx = (1 << bits) - 1; Z = 8 * es
    m = floats('matrix', n); args = {'clip': clipargs(c), 'planes': fixed(*proc) if proc else fixed(), 'matrix': m}
    if mode != 's': args['mode'] = text(mode)
    if conc: m['vals'][:] = [F64(float(v)) for v in conc]
    args['bias'] = b = floats('bias', bias); args['divisor'] = d = floats('divisor', div)
    args['saturate'] = fixed(*([sat] if sat is not None else []))
    pp = [p for p in range(planes) if not proc or p in proc]; valid = TRUE; coef = []; s = F0
    for v in m['vals']:
        valid = band(valid, fcmp('olt', fabs(v), F64(float('inf'))))
        if st: coef.append(cvt('fptrunc', v, 32)); cf32 = coef[-1]
        else:
            r = lrnd(v); valid = band(valid, bnot(fcmp('olt', r, F64(-1023.))), bnot(fcmp('ogt', r, F64(1023.))))
            i_ = sext(var(f'coef{len(coef)}', 16, -1023, 1023), 32); term.REPL[mk('cvt', 32, (r,), ('fptosi', 64, 32))] = i_; coef.append(i_); cf32 = mk('cvt', 32, (i_,), ('s', 32, 32))
        s = fop('fadd', 32, (s, cf32))
    s = ite(fcmp('olt', fabs(s), F32(2. ** -23)), F1, s)
    bv = cvt('fptrunc', b['vals'][0], 32) if bias else F0
    if bias: valid = band(valid, fcmp('olt', fabs(bv), FPINF))
    if div:
        dv = cvt('fptrunc', d['vals'][0], 32); valid = band(valid, fcmp('olt', fabs(dv), FPINF)); dv = ite(fcmp('oeq', dv, F0), s, dv)
    else: dv = s
    rd = fop('fdiv', 32, (F1, dv)); R = n // 2 if mode != 's' else {9: 1, 25: 2, 49: 3, 81: 4, 121: 5}[n]
    for p in pp:
        w, h = (sh(c.field('width'), sub_of(c, p, 'w')), sh(c.field('height'), sub_of(c, p, 'h')))
        valid = band(valid, sle(c32(4), w), sle(c32(4), h))
        if 'h' in mode: valid = band(valid, slt(c32(R), w))
        if 'v' in mode: valid = band(valid, slt(c32(R), h))
    run = Run(mod(), 'Convolution', args, extra=cfg, cpu=cpu)
    def onframe(x, pc, nn):
        dims(rec, run, x, pc, lambda p: (sh(c.field('width'), sub_of(c, p, 'w')), sh(c.field('height'), sub_of(c, p, 'h'))))
        W = outplanes(run, x.v)
        def mirror(v, o, len_):
            if not o: return v
            q = add(v, const(o, 64)); l1 = sub(len_, const(1, 64))
            if mode == 's' and R == 1: return ite(slt(q, Z64_), Z64_, ite(slt(l1, q), l1, q))
            if o < 0: return ite(slt(q, Z64_), sub(const(-1, 64), q), q)
            return ite(slt(l1, q), sub(add(len_, l1), q), q)
        def spec(p, y, xx):
            w, h = zext(W[p][0], 64), zext(W[p][1], 64)
            if p not in pp: return srcpx(run, x.st, c, p, X64(nn), y, xx)
            T = [(0, j - R) for j in range(n)] if mode == 'h' else [(j - R, 0) for j in range(n)] if mode == 'v' else [(j // (2 * R + 1) - R, j % (2 * R + 1) - R) for j in range(n)]
            acc = None
            for (dy, dx), k in zip(T, coef):
                v = srcpx(run, x.st, c, p, X64(nn), mirror(y, dy, h), mirror(xx, dx, w))
                if st: v = half2f(v) if es == 2 else v; t = fop('fmul', 32, (k, v)); acc = t if acc is None else fop('fadd', 32, (acc, t))
                elif es == 2 and n > 25 and mode == 's': t = mul(sext(k, 64), zext(v, 64)); acc = t if acc is None else add(acc, t)
                else: t = mul(sext(trunc(k, 16), 32), zext(v, 32)); acc = t if acc is None else add(acc, t)
            f = acc if st else mk('cvt', 32, (acc,), ('s', acc.w, 32))
            t = fop('fadd', 32, (fop('fmul', 32, (f, rd)), bv))
            if sat == 0: t = fabs(t)
            if st: return f2half(t, cpu if mode == 's' else 0) if es == 2 else t
            r = xr(t, 255 if es == 1 else 65535)
            return trunc(umin(zext(trunc(r, Z), 32), c32(mx)), Z) if bits % 8 else trunc(r, Z)
        nbpix(rec, run, x, pc, spec, pp, bits, lanes, rad=R if mode == 'v' else 1)
        props_from(rec, run, x, pc, c, X64(nn))
    drive(rec, run, valid, vi_same(c), onframe, cfg)
def tasks(tier):
    T = []; deep = tier == 'thorough'
    def add_(nm, es, bits, st, lv, cpu, lanes=(), **k): T.append(('p06', 't_conv', f'{nm} {lv} {"float" if st else "int"}{bits}', dict(es=es, bits=bits, st=st, cpu=cpu, lanes=lanes, **k)))
    for lv, cpu in levels():
        for es, bits, st in ((1, 8, 0), (2, 16, 0), (2, 10, 0), (4, 32, 1), (2, 16, 1)):
            F = (es, bits, st, lv, cpu)
            add_('3x3 all arguments', *F, bias=1, div=1, sat=0)
            if deep: add_('3x3', *F); [add_(f'v {n}', *F, n=n, mode='v') for n in (3, 5, 7, 9, 11)]
            elif (bits, cpu) in ((8, 2), (16, 0)): add_('v 3', *F, n=3, mode='v'); add_('v 5', *F, n=5, mode='v')
    return T

# ------------------------------------------------------------------ concrete search
def oracle(x, S):
    from hc import expect, nplanes
    import numpy as np
    a = x['args']; s = S[0]; st, bits = s.fmt[1], s.fmt[2]; mx = (1 << bits) - 1; pl = procplanes(a); odt = s.planes(0)[0].dtype; N = range(nplanes(s.fmt)); tols = {}
    if pl is None or s.vary or not okf(s.fmt): return 'error'
    if any(pl[p] and min(q.shape) < 4 for p, q in enumerate(s.planes(0))): return 'error'
    m = [float(v) for v in a['matrix']]; n = len(m); mode = a.get('mode', 's')
    if mode == 's':
        if n not in (9, 25, 49, 81, 121): return 'error'
    elif mode in ('h', 'v', 'hv', 'vh'):
        if n < 3 or n > 25 or n % 2 == 0: return 'error'
    else: return 'error'
    if not all(np.isfinite(v) for v in m): return 'error'
    if not st:
        m = [float(int(abs(v) + .5)) * (1 if v >= 0 else -1) for v in m]
        if any(abs(v) > 1023 for v in m): return 'error'
    f = np.float32
    m32 = [f(v) for v in m]; bias = f(a.get('bias', 0.)); div = f(a.get('divisor', 0.))
    if not np.isfinite(bias) or not np.isfinite(div): return 'error'
    if div == 0:
        t = f(0)
        for v in m32: t = f(t + v)
        if abs(t) < np.finfo(np.float32).eps: t = f(1)
        div = t
    for p, q in enumerate(s.planes(0)):
        if pl[p]:
            if mode in ('h', 'hv', 'vh') and n // 2 >= q.shape[1]: return 'error'
            if mode in ('v', 'hv', 'vh') and n // 2 >= q.shape[0]: return 'error'
    with np.errstate(all='ignore'): rd = float(f(1) / div)
    bias = float(bias); sat = bool(a.get('saturate', 1)); m = [float(v) for v in m32]
    if not np.isfinite(rd): return None
    def fin(acc, mag, e=0):
        """scale, bias, saturate, round: value and its error bound"""
        r = acc * rd + bias; err = (mag * abs(rd) + abs(bias)) * 2.0 ** (-18 if st else -22) + e * abs(rd) + 1e-9 * (0 if st else 1) + (1e-37 if st else 0)
        if not sat: r = np.abs(r)
        if st: return r, err
        r = np.clip(r, 0, mx); d = np.abs(r - np.floor(r) - .5)
        big = np.abs(acc * rd + bias) - err > mx + 1
        return np.rint(r), np.where(big, 0, np.where(err < .25, d < err, np.minimum(np.ceil(err) + 1, 4e9)).astype(np.float64))
    def conv(v, t, taps, e):
        """taps: (dy, dx, coefficient); v samples, t their error bounds"""
        R = max(max(abs(dy), abs(dx)) for dy, dx, c in taps); mo = 'edge' if len(taps) == 9 and mode == 's' else 'symmetric'
        P = np.pad(v, R, mode=mo); T = np.pad(t, R, mode=mo); h, w = v.shape; acc = 0; mag = 0; te = 0
        for dy, dx, c in taps:
            q = (slice(R + dy, R + dy + h), slice(R + dx, R + dx + w)); acc = acc + c * P[q]; mag = mag + abs(c) * np.abs(P[q]); te = te + abs(c) * T[q]
        return fin(acc, mag, te)
    def g(i, p):
        v = s.planes(i)[p]
        if not pl[p]: return v
        z = np.zeros(v.shape); q = v.astype(np.float64); k = n // 2
        V = [(j - k, 0, c) for j, c in enumerate(m)]; Hh = [(0, j - k, c) for j, c in enumerate(m)]
        if mode == 's':
            w = int(n ** .5 + .5); k = w // 2; r, e = conv(q, z, [(j // w - k, j % w - k, c) for j, c in enumerate(m)], 0)
        elif mode == 'v': r, e = conv(q, z, V, 0)
        elif mode == 'h': r, e = conv(q, z, Hh, 0)
        else:
            r, e = conv(q, z, V, 0)
            if st and bits == 16:
                e = e + halftol(r)
                if np.abs(r).max() > 60000: return None   # overflow of the intermediate half value
            r, e = conv(r, e, Hh, 0)
        if st and bits == 16 and not np.abs(r).max() < 60000: return None
        tols[i, p] = e
        with np.errstate(all='ignore'): return r.astype(odt)
    def tola(i, p):
        t = tols.get((i, p), 0)
        if st and bits == 16 and pl[p]: return lambda w: t + halftol(w)
        return t
    return expect(s, planes=lambda i: [g(i, p) for p in N], tola=tola)
def gen(rng):
    from hc import gen_fmt, gen_dims, pick, LEVELS
    r = lambda a, b: int(rng.integers(a, b + 1))
    fmt = gen_fmt(rng, bits=(8, 8, 8, 9, 10, 12, 14, 15, 16, 16, 16) if r(0, 80) else (17, 32), pflt=.35)
    w, h = gen_dims(rng, fmt, big=.35, mn=4 << max(fmt[3:]) if r(0, 25) else 1); a = {}; st, bits = fmt[1], fmt[2]; mx = (1 << bits) - 1
    mode = pick(rng, 's', 's', 's', 'h', 'v', 'hv', 'vh') if r(0, 100) else 'x'
    if mode != 's' or r(0, 3) == 0: a['mode'] = mode
    if mode == 's': n = pick(rng, 9, 9, 9, 25, 25, 49, 81, 121) if r(0, 60) else pick(rng, 8, 10, 24, 1, 3, 36, 123)
    else: n = pick(rng, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25) if r(0, 60) else pick(rng, 1, 4, 24, 27)
    if mode in ('h', 'hv', 'vh') and r(0, 12): w = max(w, ((n // 2 + 1) << fmt[3]) if fmt[3] else n // 2 + 1); w += -w % (1 << fmt[3])
    if mode in ('v', 'hv', 'vh') and r(0, 12): h = max(h, ((n // 2 + 1) << fmt[4]) if fmt[4] else n // 2 + 1); h += -h % (1 << fmt[4])
    k = r(0, 6)
    if st: M = (rng.standard_normal(n) * float(pick(rng, .1, 1, 10, 100))).tolist() if k else [float(pick(rng, 0, 0, 1, -1, 2, .5)) for _ in range(n)]
    else:
        A = pick(rng, 1, 3, 20, 127, 128, 300, 1023, 1023)
        M = [float(r(-A, A)) for _ in range(n)] if k > 2 else [float(pick(rng, 0, 0, 1)) for _ in range(n)] if k == 0 else [float(r(0, A)) for _ in range(n)] if k == 1 else [float(pick(rng, -A, A)) for _ in range(n)]
        if r(0, 6) == 0: M = [v + float(pick(rng, .25, .5, -.5, -.25, .49)) for v in M]; M = [max(-1023.4, min(1023.4, v)) for v in M]
        if r(0, 12) == 0: M = [float(pick(rng, A, A, -A))] * n
    if r(0, 60) == 0: M[r(0, n - 1)] = pick(rng, 1024., -1024., 1023.5, 1e300, float('nan'), float('inf'), -1023.4999)
    a['matrix'] = M
    if r(0, 2) == 0: a['bias'] = float(pick(rng, 1, -1, 3.5, 100, -100, mx // 2 if not st else .5, .25)) if r(0, 25) else pick(rng, float('nan'), float('inf'), 1e300, 1e30)
    if r(0, 1): a['divisor'] = float(pick(rng, 0, 1, 2, 9, 16, sum(map(abs, M)) or 1, sum(map(abs, M)) / 4 or 1, -3, 1e-3 if not st else .5)) if r(0, 25) else pick(rng, float('nan'), float('inf'), 1e300, 1e-20 if not st else 1e-3)
    if a.get('divisor') and abs(a['divisor']) > 1e300: a['divisor'] = 1e300
    if r(0, 2) == 0: a['saturate'] = pick(rng, 0, 0, 1, -1, 1 << 32)
    if r(0, 3) == 0:
        a['planes'] = [i for i in rng.permutation(3).tolist() if r(0, 1)] or [0]
        if r(0, 30) == 0: a['planes'] = a['planes'] + [pick(rng, 3, -1, a['planes'][0], 1 << 32)]
    return dict(fn='Convolution', level=pick(rng, *LEVELS), frames=[r(0, 9)], args=a, cont=r(0, 4), srcs=[(r(0, 1 << 30), fmt, w, h, r(1, 3), pick(rng, (24, 1), (30000, 1001)), r(0, 200) == 0)])
def srckw(x):
    k = x.get('cont', 0); bits = x['srcs'][0][1][2]; st = x['srcs'][0][1][1]
    if k == 0 and not (st and bits == 32): return {}
    def content(rng, st, bits, h, w, ch):
        import numpy as np
        mx = (1 << bits) - 1; v = rng.random((h, w)) * (2 if st else 1) - (.5 if st else 0)
        if k == 1: v = np.where(rng.random((h, w)) < .05, 1, .01)
        if k == 2: v = np.where(rng.random((h, w)) < .95, 1, 0)
        if k == 3: v = np.full((h, w), 1.)
        return v.astype(np.float16 if bits == 16 else np.float32) if st else np.rint(v * mx).astype(np.uint8 if bits <= 8 else np.uint16 if bits <= 16 else np.uint32)
    return dict(content=content)
def run_case(x):
    from hc import filter_case
    import numpy as np
    y = dict(x); y['args'] = dict(x['args']); y['args']['matrix'] = np.array(x['args']['matrix'], dtype=np.float64)
    return filter_case(y, oracle, srckw=srckw)
def hunt(H):
    from hc import hunt_cases
    hunt_cases(H, gen, run_case, ())
def rerun(x):
    from hc import case_of
    return run_case(case_of(x))
