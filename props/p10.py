"""P10 AverageFrames."""
from common import *
import term
from p03 import sub_of, sh, X64
from p05 import fc, F1, F0, cvt, half2f, f2half, pix, procplanes
from p08 import floats, F64, F32, point_clip, okf
from intrin import fabs, fpclass
LEVEL = 'proof'
HUNT_S = {'quick': 30, 'thorough': 300}; HUNT_PARTS = 4
TASK_S = {'quick': 150, 'thorough': 1200}
def mod(): return FilterMod('src/core/averageframesfilter.cpp', r'^averageFramesInitialize\(')
EPS32 = F32(2. ** -23)
def isint(t): return {'count': c32(1), 'get': lambda k, i: t, 'has': TRUE, 'val': t}
def t_avg(rec, es, bits, st, k=3, clips=1, cf=1, scale=None, sc=False, proc=None):
    """k weights; clips == 1: temporal window over one clip, else k clips"""
    rec.bounded.add(f'AverageFrames: {k} weights (the number of weights is bounded; weights, clips and frames are not)')
    term.REPL.clear(); c = point_clip(es, cf, bits, st); cfg = fmtfacts(c); mx = (1 << bits) - 1
    cs = [c]
    for i in range(1, clips):
        d = point_clip(es, cf, bits, st); d = Clip(f'clip{i}', numPlanes=c.field('numPlanes').k, bytesPerSample=es)
        d.f.update({f: c.field(f) for f in ('colorFamily', 'sampleType', 'bitsPerSample', 'subSamplingW', 'subSamplingH', 'width', 'height', 'fpsNum', 'fpsDen')}); cs.append(d)
    m = floats('weights', k); args = {'clips': clipargs(*cs), 'weights': m, 'planes': fixed(*proc) if proc else fixed()}
    args['scale'] = s_ = floats('scale', 1 if scale else 0)
    if scale: s_['val'] = s_['vals'][0]
    scv = var('scenechange', 64); args['scenechange'] = isint(scv) if sc else fixed()
    valid = TRUE; coef = []; tot = F0
    for j, v in enumerate(m['vals']):
        valid = band(valid, fcmp('olt', fabs(v), F64(float('inf'))))
        if st: coef.append(cvt('fptrunc', v, 32))
        else:
            r = mk('fun', 64, (v,), 'round'); valid = band(valid, bnot(fcmp('olt', r, F64(-1023.))), bnot(fcmp('ogt', r, F64(1023.))))
            i_ = sext(var(f'coef{j}', 16, -1023, 1023), 32); term.REPL[mk('cvt', 32, (r,), ('fptosi', 64, 32))] = i_; coef.append(i_)
    if clips > 1 and clips != k or clips == 1 and k % 2 == 0 or k > 31: valid = FALSE
    if clips > 1 and sc: valid = band(valid, eq(scv, c64(0)))
    run = Run(mod(), 'AverageFrames', args, extra=cfg, unroll=max(12, k + 2))
    if scale:
        f = cvt('fptrunc', s_['vals'][0], 32); valid = band(valid, fcmp('olt', fabs(f), fc(0x7f800000)))
        if st: S = f; valid = band(valid, bnot(fcmp('olt', f, EPS32)))
        else: S = None
    elif st:
        for w in coef: tot = fop('fadd', 32, (tot, w))
        S = ite(fcmp('olt', tot, EPS32), F1, tot)
    else:
        t = c32(0)
        for w in coef: t = add(t, w)
        S = ite(slt(t, c32(1)), c32(1), t)
    N = c.field('numFrames')
    for d in cs[1:]: N = ite(slt(N, d.field('numFrames')), d.field('numFrames'), N)
    if not st and scale: S = fs_scale(s_['vals'][0]); valid = band(valid, sle(c32(1), S))
    def onframe(x, pc, n):
        R = k // 2; pp = [p for p in range(c.field('numPlanes').k) if not proc or p in proc]
        dims(rec, run, x, pc, lambda p: (sh(c.field('width'), sub_of(c, p, 'w')), sh(c.field('height'), sub_of(c, p, 'h'))))
        last = sub(c.field('numFrames'), c32(1))
        def fno(j):
            """frame of the window as a clip frame number (64 bits)"""
            if clips > 1: d = cs[j].field('numFrames'); return X64(ite(slt(n, d), n, sub(d, c32(1))))
            q = add(sext(n, 64), c64(j - R)); l = sext(last, 64); q = ite(slt(q, Z64), Z64, q); return ite(slt(l, q), l, q)
        W = list(coef); K = []
        if sc and clips == 1:
            def flag(key, j):
                mp = P(c.name, fno(j)); has = band(slt(c32(0), run.api.prop_base(key, 'count', mp)), eq(run.api.prop_base(key, 'type', mp), c32(1)))
                return band(has, ne(run.api.prop_base(key, 'int', mp, Z64), Z64))
            mp0 = run.api.log(x.st, run.api.frame(x.v)[1].props)[0][1]
            def P(nm, q): return type(mp0)(mp0.r, q)
            on = ne(scv, Z64); zero = F0 if st else c32(0); pls = (lambda a, b: fop('fadd', 32, (a, b))) if st else add
            # j is cut off when a change lies between it and the centre
            before = [bor(*[flag('_SceneChangePrev', i) for i in range(j + 1, R + 1)]) if j < R else FALSE for j in range(k)]
            after = [bor(*[flag('_SceneChangeNext', i) for i in range(R, j)]) if j > R else FALSE for j in range(k)]
            K.append(('no scene change detection', bnot(on)))
            for a in range(R + 1):
                for b in range(R, k): K.append((f'window starts at {a} and ends at {b}', band(on, *[bnot(flag('_SceneChangePrev', i)) for i in range(a + 1, R + 1)], flag('_SceneChangePrev', a) if a else TRUE, *[bnot(flag('_SceneChangeNext', i)) for i in range(R, b)], flag('_SceneChangeNext', b) if b < k - 1 else TRUE)))
            acc = zero; cut = [band(on, bor(before[j], after[j])) for j in range(k)]
            for j in list(range(R + 1, k)) + list(range(R)): acc = pls(acc, ite(cut[j], coef[j], zero)) if not st else ite(cut[j], fop('fadd', 32, (acc, coef[j])), acc)
            W = [ite(cut[j], zero, coef[j]) for j in range(k)]; W[R] = pls(W[R], acc) if not st else ite(on, fop('fadd', 32, (W[R], acc)), W[R])
        def spec(p, y, xx):
            V = [srcpx(run, x.st, cs[j if clips > 1 else 0], p, fno(j), y, xx) for j in range(k)]
            if p not in pp: return V[0 if clips > 1 else R]
            if st:
                a = F0
                for v, w in zip(V, W): a = fop('fadd', 32, (a, fop('fmul', 32, (half2f(v) if es == 2 else v, w))))
                r = fop('fmul', 32, (a, fop('fdiv', 32, (F1, S)))); return f2half(r, 0) if es == 2 else r
            o = c32(1 << (bits - 1) if p and cf == 3 else 0); a = c32(0)
            for v, w in zip(V, W): a = add(a, mul(sub(zext(v, 32), o), w))
            r = mk('cvt', 32, (fop('fmul', 32, (mk('cvt', 32, (a,), ('s', 32, 32)), fop('fdiv', 32, (F1, mk('cvt', 32, (S,), ('s', 32, 32)))))),), 'rint')
            r = add(r, o)
            return trunc(ite(slt(r, c32(0)), c32(0), ite(slt(c32(mx), r), c32(mx), r)), 8 * es)
        lo = [(f'frame {a}', eq(n, c32(a))) for a in range(R)] + [('', sle(c32(R), n))]; e = sub(last, n)
        hi = [(f'{b} before the last', eq(e, c32(b))) for b in range(R)] + [('', sle(c32(R), e))]
        y = var('y', 64, 0, 1 << 31); xx = var('x', 64, 0, 1 << 31)
        for p, (w, h) in enumerate(outplanes(run, x.v)):
            H = tuple(pc) + tuple(run.ex.facts) + (slt(y, zext(h, 64)), slt(xx, zext(w, 64))); got = outpx(run, x.st, x.v, p, y, xx); want = spec(p, y, xx); what = f'every pixel is the documented one (plane {p})'
            if clips > 1 or p not in pp or not R: rec.prove(what, eq(got, want), H); continue
            cases = [(f'{a} {b}'.strip() or 'inner frames', band(f, g)) for a, f in lo for b, g in hi]
            if K: cases = [(f'{a}, {b}', band(f, g)) for a, f in cases for b, g in K]
            prove_cases(rec, what, got, want, H, cases, keep=lambda u: '.prop.' not in str(u.k))
        props_from(rec, run, x, pc, c, fno(0 if clips > 1 else R))
    drive(rec, run, valid, vi_same(c, numFrames=N), onframe, cfg)
def fs_scale(v):
    """the scale argument rounded to an integer, saturating"""
    f = cvt('fptrunc', v, 32); H = F32(2. ** 31)
    return ite(fcmp('ogt', f, H), c32((1 << 31) - 1), ite(fcmp('olt', f, F32(-2. ** 31)), c32(-(1 << 31)), trunc(mk('cvt', 64, (f,), 'llround'), 32)))
def tasks(tier):
    T = []; deep = tier == 'thorough'
    def add_(nm, **k): T.append(('p10', 't_avg', nm, k))
    for es, bits, st in ((1, 8, 0), (2, 16, 0), (2, 10, 0), (4, 32, 1), (2, 16, 1)):
        F = dict(es=es, bits=bits, st=st); nm = f'{"float" if st else "int"}{bits}'
        for k in (1, 3, 5) + ((7, 9, 15, 23) if deep else ()): add_(f'{nm} window of {k}', k=k, **F)
        add_(f'{nm} window of 3, scale', scale=True, **F)
        for k in (3, 5) if deep or bits in (8, 32) else (3,): add_(f'{nm} window of {k}, scene changes', k=k, sc=True, **F)
        for k in (2, 3) + ((4, 5, 12, 31) if deep else ()): add_(f'{nm} {k} clips', k=k, clips=k, **F)
        add_(f'{nm} 3 clips, YUV, planes [0, 2]', k=3, clips=3, cf=3, proc=[0, 2], **F)
        add_(f'{nm} window of 3, RGB, scale', cf=2, scale=True, **F)
        add_(f'{nm} 2 clips, scale', k=2, clips=2, scale=True, **F)
    for k, n in ((2, 1), (3, 2), (2, 3), (32, 1), (33, 1)): add_(f'{k} weights for {n} clips', es=1, bits=8, st=0, k=k, clips=n)
    add_('scene changes with 2 clips', es=1, bits=8, st=0, k=2, clips=2, sc=True)
    return T

# ------------------------------------------------------------------ concrete search
def oracle(x, S):
    from hc import expect, nplanes
    import numpy as np
    f = np.float32; a = x['args']; s = S[0]; st, bits = s.fmt[1], s.fmt[2]; mx = (1 << bits) - 1; pl = procplanes(a); N = range(nplanes(s.fmt)); odt = s.planes(0)[0].dtype
    w = [float(v) for v in a['weights']]; k = len(w); single = len(S) == 1; sc = bool(a.get('scenechange', 0))
    if (k % 2 == 0 if single else k != len(S)) or k > 31 or (sc and not single) or pl is None: return 'error'
    if not okf(s.fmt) or any(q.vary or q.fmt != s.fmt or (q.w, q.h) != (s.w, s.h) for q in S): return 'error'
    if not all(np.isfinite(v) for v in w): return 'error'
    with np.errstate(all='ignore'): fw = [f(v) for v in w]
    if not all(np.isfinite(v) for v in fw): return None
    iw = [int(abs(v) + .5) * (1 if v >= 0 else -1) if abs(v) < 1e9 else 10 ** 9 for v in w]
    if not st and any(abs(v) > 1023 for v in iw): return 'error'
    eps = f(2.0 ** -23)
    if 'scale' in a:
        with np.errstate(all='ignore'): q = f(a['scale'])
        if not np.isfinite(q): return 'error'
        if st:
            if q < eps: return 'error'
            scale = q
        else:
            scale = min(2 ** 31 - 1, int(np.floor(float(q) + .5))) if q > -1e9 else -1
            if q == f(2.0 ** 31): return None
            if scale < 1: return 'error'
    elif st:
        scale = f(0)
        for v in fw: scale = f(scale + v)
        if abs(float(scale) - float(eps)) < 1e-9 * k: return None
        if scale < eps: scale = f(1)
    else: scale = max(1, sum(iw))
    R = k // 2
    def src(i):
        """(clip, frame) of every weight"""
        return [(s, min(max(i - R + j, 0), s.n - 1)) for j in range(k)] if single else [(q, min(i, q.n - 1)) for q in S]
    def wts(i):
        W = list(fw if st else iw)
        if sc:
            P = [q.props(n) for q, n in src(i)]; fr = 0; to = k - 1
            for j in range(R, 0, -1):
                if P[j].get('_SceneChangePrev'): fr = j; break
            for j in range(R, k - 1):
                if P[j].get('_SceneChangeNext'): to = j; break
            if st:
                acc = f(0)
                for j in list(range(to + 1, k)) + list(range(fr)): acc = f(acc + W[j]); W[j] = f(0)
                W[R] = f(W[R] + acc)
            else:
                W = [v if fr <= j <= to else 0 for j, v in enumerate(W)]; W[R] += sum(iw) - sum(W)
        return W
    def val(i, p):
        V = [q.planes(n)[p] for q, n in src(i)]; W = wts(i)
        if st:
            A = sum(v.astype(np.float64) * float(c) for v, c in zip(V, W)); m = sum(np.abs(v.astype(np.float64)) * abs(float(c)) for v, c in zip(V, W))
            return A / float(scale), m / float(scale)
        o = 1 << (bits - 1) if p and s.fmt[0] == 3 else 0
        A = sum((v.astype(np.int64) - o) * c for v, c in zip(V, W))
        return np.clip(np.rint(A.astype(f) * (f(1) / f(scale))).astype(np.int64) + o, 0, mx), 0
    def planes(i):
        c, n = src(i)[R if single else 0]
        return [val(i, p)[0].astype(odt) if pl[p] else c.planes(n)[p] for p in N]
    tol = {}
    if st: tol = dict(tola=lambda i, p: (lambda v: 2.0 ** -19 * v[1] + (2.0 ** -10 * np.abs(v[0]) + 2.0 ** -24 if bits == 16 else 0) + 1e-37)(val(i, p)) if pl[p] else 0)
    pr = lambda i: (lambda c: c[0].props(c[1]))(src(i)[R if single else 0])
    return expect(s, n=max(q.n for q in S), planes=planes, props=pr, **tol)
def gen(rng):
    from hc import gen_fmt, gen_dims, pick, LEVELS
    r = lambda a, b: int(rng.integers(a, b + 1)); fmt = gen_fmt(rng, bits=(8, 8, 8, 9, 10, 12, 14, 16, 16, 16) if r(0, 30) else (17, 32), pflt=.35); w, h = gen_dims(rng, fmt, big=.15); a = {}
    single = r(0, 1); k = pick(rng, 1, 3, 3, 5, 7, 9, r(0, 15) * 2 + 1, 31) if single else pick(rng, 2, 2, 3, 4, 5, 8, r(2, 31), 31)
    nw = k if r(0, 25) else max(1, k + pick(rng, -1, 1, 2)); nc = 1 if single else k
    kind = r(0, 5)
    wt = lambda: 1.0 if kind == 0 else float(r(-5, 5)) if kind == 1 else float(rng.normal()) * 3 if kind == 2 else float(r(-1023, 1023)) if kind == 3 else pick(rng, 0.5, 1.5, -0.5, 2.49999, -2.5, 1023.4, 0.0) if kind == 4 else 1023.0
    a['weights'] = [wt() for _ in range(nw)]
    if r(0, 40) == 0: a['weights'][-1] = pick(rng, 1024.0, -1023.5, 1023.49, float('nan'), float('inf'), 1e300, -1024.0)
    if r(0, 2) == 0: a['scale'] = pick(rng, 1.0, 2.0, 3.0, float(r(1, 60)), float(r(1, 5000)), float(rng.random()) * 9, 0.5, 0.49, 1e6, 3e9) if r(0, 10) else pick(rng, 0.0, -1.0, float('nan'), float('inf'), 1e-8, -3e9)
    if r(0, 2) == 0 or single and r(0, 1): a['scenechange'] = r(0, 1) if single or r(0, 15) == 0 else 0
    if r(0, 2) == 0:
        a['planes'] = [i for i in rng.permutation(3).tolist() if r(0, 1)] or [0]
        if r(0, 30) == 0: a['planes'] = a['planes'] + [pick(rng, 3, -1, a['planes'][0])]
    n = r(1, 12); S = [(r(0, 1 << 30), fmt, w, h, n if i == 0 else r(1, 4), pick(rng, (24, 1), (30000, 1001)), False) for i in range(nc)]
    if nc > 1 and r(0, 30) == 0: q = list(S[r(0, nc - 1)]); j = pick(rng, 2, 3); q[j] += 4; S[r(1, nc - 1)] = tuple(q)
    if nc > 1 and r(0, 40) == 0: i = r(1, nc - 1); q = list(S[i]); q[1] = gen_fmt(rng, ss=False); S[i] = tuple(q)
    return dict(fn='AverageFrames', level=pick(rng, *LEVELS), frames=[r(0, 12), 0, r(0, 12)], srcs=S, args=a)
def srckw(x):
    if not x['args'].get('scenechange'): return {}
    d = x['srcs'][0][0] % 3
    def pf(rng, i):
        p = {}
        for k in ('_SceneChangePrev', '_SceneChangeNext'):
            v = int(rng.integers(0, 4 + 2 * d))
            if v < 2: p[k] = v
            elif v == 2: p[k] = 1 << 40
        return p
    return dict(props=pf)
def run_case(x):
    from hc import filter_case
    return filter_case(x, oracle, clipkey='clips', listclips=True, srckw=srckw)
def hunt(H):
    from hc import hunt_cases
    hunt_cases(H, gen, run_case, ())
def rerun(x):
    from hc import case_of
    return run_case(case_of(x))
