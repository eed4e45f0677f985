"""P04 plane and field composition: StackVertical, StackHorizontal, ShufflePlanes, SplitPlanes, SeparateFields, DoubleWeave."""
from common import *
from p03 import sub_of, sh, multiple, X64
LEVEL = 'proof'
SRC, INIT = 'src/core/simplefilters.cpp', r'^stdlibInitialize\('
HUNT_S = {'quick': 20, 'thorough': 300}; HUNT_PARTS = 3
TASK_S = {'quick': 150, 'thorough': 1500}
def mod(): return FilterMod(SRC, INIT)
FMT = ('colorFamily', 'sampleType', 'bitsPerSample', 'bytesPerSample', 'subSamplingW', 'subSamplingH', 'numPlanes')
def clampn(c, n): return ite(slt(n, c.field('numFrames')), n, sub(c.field('numFrames'), c32(1)))
def smax(a, b): return ite(slt(a, b), b, a)

def t_stack(rec, fn, es, planes, K, ss=None, same=True):
    kw = dict(subSamplingW=c32(ss[0]), subSamplingH=c32(ss[1])) if ss else {}
    cs = [vclip('clip0', es, planes, **kw)]
    for i in range(1, K):
        cs.append(vclip(f'clip{i}', es, planes, **{f: cs[0].field(f) for f in FMT + (('width',) if fn == 'StackVertical' else ('height',)) if f not in ('bytesPerSample', 'numPlanes')}) if same else vclip(f'clip{i}', es, planes, **kw))
    ver = fn == 'StackVertical'; ax, ot = ('height', 'width') if ver else ('width', 'height')
    tot = Z64
    for c in cs: tot = add(tot, X64(c.field(ax)))
    cfg = [f for c in cs for f in fmtfacts(c)] + [sle(tot, c64(MAXDIM))]
    run = Run(mod(), fn, {'clips': clipargs(*cs)}, extra=cfg)
    valid = band(*[eq(c.field(ot), cs[0].field(ot)) for c in cs[1:]], *[eq(c.field(f), cs[0].field(f)) for c in cs[1:] for f in FMT])
    nf = cs[0].field('numFrames')
    for c in cs[1:]: nf = smax(nf, c.field('numFrames'))
    vi = vi_same(cs[0], **{ax: trunc(tot, 32), 'numFrames': nf})
    def onframe(x, pc, n):
        if not same: return
        ps = lambda p: sub_of(cs[0], p, 'h' if ver else 'w')
        dims(rec, run, x, pc, lambda p: (sh(vi['width'], sub_of(cs[0], p, 'w')), sh(vi['height'], sub_of(cs[0], p, 'h'))))
        def spec(p, y, xx):
            pos = y if ver else xx; base = Z64; r = None; parts = []
            for c in cs:
                d = X64(sh(c.field(ax), ps(p))); q = sub(pos, base)
                parts.append((slt(pos, add(base, d)), srcpx(run, x.st, c, p, X64(clampn(c, n)), *((q, xx) if ver else (y, q))))); base = add(base, d)
            r = parts[-1][1]
            for c_, v in parts[-2::-1]: r = ite(c_, v, r)
            return r
        pixels(rec, run, x, pc, spec)
        props_from(rec, run, x, pc, cs[0], X64(clampn(cs[0], n)))
    drive(rec, run, valid, vi, onframe, cfg)

def durations(run, x, mp, cond, a, b):
    """_DurationNum/Den are rescaled by a/b when both exist"""
    g = lambda k, q: run.api.prop_base(k, q, mp, Z64) if q == 'int' else run.api.prop_base(k, q, mp)
    ok = band(cond, *[band(slt(c32(0), g(k, 'count')), eq(g(k, 'type'), c32(1))) for k in ('_DurationNum', '_DurationDen')])
    args = (g('_DurationNum', 'int'), g('_DurationDen', 'int'), c64(a), c64(b))
    return {'_DurationNum': (ok, 'int', uf('muldiv.num', 64, args)), '_DurationDen': (ok, 'int', uf('muldiv.den', 64, args))}
def propmap(run, x):
    k = run.api.frame(x.v); return run.api.log(x.st, k[1].props)[0][1]
def t_separate(rec, es, planes):
    c = vclip('clip', es, planes); cfg = fmtfacts(c); run = Run(mod(), 'SeparateFields', {'clip': clipargs(c)}, extra=cfg)
    a = run.args; W, Hh, ssh_ = c.field('width'), c.field('height'), c.field('subSamplingH')
    tff = ite(a['tff']['has'], ite(ne(a['tff']['val'], Z64), c32(1), c32(0)), c32(-1))
    md = bor(bnot(a['modify_duration']['has']), ne(a['modify_duration']['val'], Z64))
    valid = band(multiple(Hh, add(ssh_, c32(1))), sle(c.field('numFrames'), c32((1 << 31) // 2 - 1)))
    fa = (c.field('fpsNum'), c.field('fpsDen'), c64(2), c64(1))
    vi = vi_same(c, height=ashr(Hh, c32(1)), numFrames=scale(c.field('numFrames'), 2), fpsNum=ite(md, uf('muldiv.num', 64, fa), fa[0]), fpsDen=ite(md, uf('muldiv.den', 64, fa), fa[1]))
    def eff(mp):
        fb = run.api.prop_base('_FieldBased', 'int', mp, Z64); has = band(slt(c32(0), run.api.prop_base('_FieldBased', 'count', mp)), eq(run.api.prop_base('_FieldBased', 'type', mp), c32(1)))
        return ite(band(has, eq(fb, c64(1))), c32(0), ite(band(has, eq(fb, c64(2))), c32(1), tff))
    def onframe(x, pc, n):
        N = X64(ashr(n, c32(1))); mp = propmap(run, x); e = eff(mp)
        rec.prove('a field order is known', ne(e, c32(-1)), tuple(pc) + tuple(run.ex.facts))
        top = xor(and_(n, c32(1)), e)        # 1: top field
        dims(rec, run, x, pc, lambda p: (sh(W, sub_of(c, p, 'w')), sh(ashr(Hh, c32(1)), sub_of(c, p, 'h'))))
        for v in (0, 1):
            hy = tuple(pc) + (eq(top, c32(v)),)
            if not solve.feasible(hy): continue
            pixels(rec, run, x, hy, lambda p, y, xx: srcpx(run, x.st, c, p, N, add(scale(y, 2), c64(1 - v)), xx), f'every row is a row of the {"top" if v else "bottom"} field')
        props_from(rec, run, x, pc, c, N, {'_Field': (TRUE, 'int', X64(top)), '_FieldBased': (TRUE, 'del'), **durations(run, x, mp, md, 1, 2)})
    drive(rec, run, valid, vi, onframe, cfg, noframe='errors-ok')
def t_weave(rec, es, planes):
    c = vclip('clip', es, planes); cfg = fmtfacts(c) + [sle(c.field('height'), c32(MAXDIM // 2))]; run = Run(mod(), 'DoubleWeave', {'clip': clipargs(c)}, extra=cfg)
    a = run.args; W, Hh = c.field('width'), c.field('height')
    tff = ite(a['tff']['has'], ite(ne(a['tff']['val'], Z64), c32(1), c32(0)), c32(-1))
    vi = vi_same(c, height=scale(Hh, 2))
    def field(mp):
        has = band(slt(c32(0), run.api.prop_base('_Field', 'count', mp)), eq(run.api.prop_base('_Field', 'type', mp), c32(1)))
        return ite(has, run.api.prop_base('_Field', 'int', mp, Z64), c64(-1))
    def onframe(x, pc, n):
        x.fblog = run.api.log(x.st, run.api.frame(x.v)[1].props); n2 = clampn(c, add(n, c32(1))); mp = propmap(run, x); m2 = P(mp.r, X64(n2))
        f1, f2 = field(mp), field(m2)
        known = bor(band(eq(f1, Z64), eq(f2, c64(1))), band(eq(f1, c64(1)), eq(f2, Z64)))
        top1 = ite(known, eq(f1, c64(1)), eq(xor(and_(n, c32(1)), tff), c32(1)))
        rec.prove('a field order is known', bor(known, ne(tff, c32(-1))), tuple(pc) + tuple(run.ex.facts))
        dims(rec, run, x, pc, lambda p: (sh(W, sub_of(c, p, 'w')), scale(sh(Hh, sub_of(c, p, 'h')), 2)))
        def spec(p, y, xx):
            src = ite(eq(eq(and_(y, c64(1)), Z64), top1), X64(n), X64(n2))
            return srcpx(run, x.st, c, p, src, lshr(y, c64(1)), xx)
        for v in (TRUE, FALSE):
            hy = tuple(pc) + (eq(top1, v),)
            if not solve.feasible(hy): continue
            for par in (0, 1):
                pixels(rec, run, x, hy + (eq(trunc(var('y', 64, 0, 1 << 31), 1), const(par, 1)),), lambda p, y, xx: srcpx(run, x.st, c, p, X64(n) if (par == 0) == (v is TRUE) else X64(n2), lshr(y, c64(1)), xx), f'{"odd" if par else "even"} rows come from the {"bottom" if par else "top"} field')
        props_from(rec, run, x, pc, c, X64(n), {'_Field': (TRUE, 'del'), '_FieldBased': (TRUE, 'int', ite(slt(add(n, c32(1)), c.field('numFrames')), ite(top1, c64(2), c64(1)), fbval(x)))})
    drive(rec, run, TRUE, vi, onframe, cfg, noframe='errors-ok')
def fbval(x):
    """on the last frame both fields are the same frame: either field order is right"""
    for op in x.fblog:
        if op[0] == 'set' and op[1] == '_FieldBased': return op[3][0]
    return c64(0)
def t_gray(rec, es, planes):
    """ShufflePlanes to GRAY of any plane"""
    c = vclip('clip', es, planes); cfg = fmtfacts(c)
    run = Run(mod(), 'ShufflePlanes', {'clips': clipargs(c), 'planes': intlist('planes', 1), 'colorfamily': fixed(1)}, extra=cfg)
    pl = sat32(run.args['planes']['vals'][0]); valid = band(sle(c32(0), pl), slt(pl, c32(planes)))
    sel = lambda ax, f: ite(eq(pl, c32(0)), c.field(f), sh(c.field(f), c.field('subSamplingW' if ax == 'w' else 'subSamplingH')))
    vi = vi_same(c, colorFamily=c32(1), subSamplingW=c32(0), subSamplingH=c32(0), numPlanes=c32(1), width=sel('w', 'width'), height=sel('h', 'height'))
    def onframe(x, pc, n):
        for v in range(planes):
            hy = tuple(pc) + (eq(pl, c32(v)),)
            if not solve.feasible(hy): continue
            dims(rec, run, x, hy, lambda p: (vi['width'], vi['height']))
            pixels(rec, run, x, hy, lambda p, y, xx: srcpx(run, x.st, c, v, X64(n), y, xx), f'the pixels of plane {v}')
        props_from(rec, run, x, pc, c, X64(n))
    drive(rec, run, valid, vi, onframe, cfg)
def t_shuffle(rec, es, cf, clips, planes):
    """three planes from given clips/planes (concrete plane numbers)"""
    cs = [vclip(f'clip{i}', es, pl, **kw) for i, (pl, kw) in enumerate(clips)]
    src = [cs[min(i, len(cs) - 1)] for i in range(3)]
    cfg = [f for c in cs for f in fmtfacts(c)]
    run = Run(mod(), 'ShufflePlanes', {'clips': clipargs(*cs), 'planes': fixed(*planes), 'colorfamily': fixed(cf)}, extra=cfg)
    W = [sh(src[i].field('width'), sub_of(src[i], planes[i], 'w')) for i in range(3)]; H_ = [sh(src[i].field('height'), sub_of(src[i], planes[i], 'h')) for i in range(3)]
    rng = range(5) if cf == 3 else (0,)
    ok = lambda a, b: bor(*[eq(a, shl(b, c32(k))) for k in rng])
    valid = band(eq(W[1], W[2]), eq(H_[1], H_[2]), ok(W[0], W[1]), ok(H_[0], H_[1]), *[eq(src[i].field(f), src[0].field(f)) for i in (1, 2) for f in ('bitsPerSample', 'sampleType')])
    def lg(a, b):
        r = c32(4)
        for k in range(3, -1, -1): r = ite(eq(a, shl(b, c32(k))), c32(k), r)
        return r
    nf = src[0].field('numFrames')
    for c in src[1:]: nf = smax(nf, c.field('numFrames'))
    vi = vi_same(src[0], colorFamily=c32(cf), numPlanes=c32(3), width=W[0], height=H_[0], numFrames=nf, subSamplingW=lg(W[0], W[1]) if cf == 3 else c32(0), subSamplingH=lg(H_[0], H_[1]) if cf == 3 else c32(0))
    def onframe(x, pc, n):
        dims(rec, run, x, pc, lambda p: (W[p], H_[p]))
        pixels(rec, run, x, pc, lambda p, y, xx: srcpx(run, x.st, src[p], planes[p], X64(clampn(src[p], n)), y, xx))
        props_from(rec, run, x, pc, src[0], X64(clampn(src[0], n)))
    drive(rec, run, valid, vi, onframe, cfg)
def tasks(tier):
    T = []; deep = tier == 'thorough'; add_ = lambda f, n, **k: T.append(('p04', f, n, k))
    for es in (1, 2, 4):
        for pl in (1, 3):
            for fn in ('StackVertical', 'StackHorizontal'):
                for K in (2, 3): add_('t_stack', f'{fn} {es} bytes {pl} planes {K} clips', fn=fn, es=es, planes=pl, K=K)
            add_('t_separate', f'SeparateFields {es} bytes {pl} planes', es=es, planes=pl)
            add_('t_weave', f'DoubleWeave {es} bytes {pl} planes', es=es, planes=pl)
            add_('t_gray', f'ShufflePlanes to gray {es} bytes {pl} planes', es=es, planes=pl)
    g = lambda **k: (1, k)
    for fn in ('StackVertical', 'StackHorizontal'): add_('t_stack', f'{fn} arbitrary formats', fn=fn, es=2, planes=3, K=2, same=False)
    for es in (1, 2, 4) if deep else (1, 2):
        add_('t_shuffle', f'ShufflePlanes three gray clips to YUV {es} bytes', es=es, cf=3, clips=[g(), g(), g()], planes=[0, 0, 0])
        add_('t_shuffle', f'ShufflePlanes three gray clips to RGB {es} bytes', es=es, cf=2, clips=[g(), g(), g()], planes=[0, 0, 0])
        add_('t_shuffle', f'ShufflePlanes swap chroma {es} bytes', es=es, cf=3, clips=[(3, dict(cf=3))], planes=[0, 2, 1])
        add_('t_shuffle', f'ShufflePlanes luma and chroma {es} bytes', es=es, cf=3, clips=[g(), (3, dict(cf=3))], planes=[0, 1, 2])
    return T

# ---------------------------------------------------------------- concrete search
def oracle(x, S):
    from hc import expect, ssof, clamp32, npdt, nplanes, muldiv
    import numpy as np
    fn = x['fn']; a = x['args']; s = S[0]
    if fn in ('StackVertical', 'StackHorizontal'):
        if len(S) == 1: return expect(s)
        v = fn == 'StackVertical'
        if any(q.fmt != s.fmt or q.vary or (q.w != s.w if v else q.h != s.h) for q in S) : return 'error'
        N = max(q.n for q in S)
        pl = lambda i: [np.ascontiguousarray(np.concatenate([q.planes(min(i, q.n - 1))[p] for q in S], axis=0 if v else 1)) for p in range(nplanes(s.fmt))]
        return expect(s, n=N, w=s.w if v else sum(q.w for q in S), h=sum(q.h for q in S) if v else s.h, planes=pl, props=lambda i: s.props(min(i, s.n - 1)))
    if fn == 'SplitPlanes':
        if nplanes(s.fmt) == 1: return [expect(s)]
        o = []
        for p in range(3):
            sw, sh_ = ssof(s.fmt, p); o.append(expect(s, w=s.w >> sw, h=s.h >> sh_, fmt=(1,) + s.fmt[1:3] + (0, 0), planes=lambda i, p=p: [s.planes(i)[p]]))
        return o
    if fn == 'ShufflePlanes':
        cf = clamp32(a['colorfamily']); cf = {1000000: 1, 2000000: 2, 3000000: 3, 4000000: 3}.get(cf, cf)
        if cf not in (1, 2, 3): return 'error'
        ps = S[-1] if x.get('prop_src') else s
        C = S[:-1] if x.get('prop_src') else S
        k = 1 if cf == 1 else 3; pl = [clamp32(v) for v in a['planes']]
        if len(C) > k or len(pl) > k: return 'error'
        pl += [0] * (k - len(pl)); C = C + [C[-1]] * (k - len(C))
        if any(p < 0 or p >= nplanes(q.fmt) for p, q in zip(pl, C)): return 'error'
        W = []
        for p, q in zip(pl, C): sw, sh_ = ssof(q.fmt, p); W.append((q.w >> sw, q.h >> sh_))
        pr = lambda i: ps.props(min(i, ps.n - 1))
        if cf == 1: return expect(C[0], w=W[0][0], h=W[0][1], fmt=(1,) + C[0].fmt[1:3] + (0, 0), planes=lambda i: [C[0].planes(i)[pl[0]]], props=pr)
        if W[1] != W[2] or any(q.fmt[1:3] != C[0].fmt[1:3] for q in C): return 'error'
        ss = []
        for ax in (0, 1):
            m = [i for i in range(5) if W[0][ax] == W[1][ax] << i]
            if not m: return 'error'
            ss.append(m[0])
        if cf == 2 and any(ss): return 'error'
        return expect(C[0], n=max(q.n for q in C), w=W[0][0], h=W[0][1], fmt=(cf,) + C[0].fmt[1:3] + tuple(ss), planes=lambda i: [q.planes(min(i, q.n - 1))[p] for p, q in zip(pl, C)], props=pr)
    tff = a.get('tff'); tff = None if tff is None else int(tff != 0)
    if fn == 'SeparateFields':
        sh_ = s.fmt[4]; md = a.get('modify_duration', 1) != 0
        if s.h % (2 << sh_) or s.n > ((1 << 31) - 1) // 2: return 'error'
        def order(i):
            fb = s.props(i).get('_FieldBased'); return 0 if fb == 1 else 1 if fb == 2 else tff
        def pl(i):
            t = order(i // 2)
            if t is None: return 'error'
            return [np.ascontiguousarray(q[(0 if (i & 1) ^ t else 1)::2]) for q in s.planes(i // 2)]
        def pr(i):
            d = dict(s.props(i // 2)); d['_Field'] = (i & 1) ^ order(i // 2); d.pop('_FieldBased', None)
            if md and '_DurationNum' in d: d['_DurationNum'], d['_DurationDen'] = muldiv(d['_DurationNum'], d['_DurationDen'], 1, 2)
            return d
        return expect(s, n=s.n * 2, h=s.h // 2, fps=muldiv(*s.fps, 2, 1) if md else s.fps, planes=pl, props=pr)
    if fn == 'DoubleWeave':
        def top1(i):
            f1, f2 = s.props(i).get('_Field'), s.props(min(i + 1, s.n - 1)).get('_Field')
            if (f1, f2) == (0, 1): return 0
            if (f1, f2) == (1, 0): return 1
            return None if tff is None else (i & 1) ^ tff
        def pl(i):
            t = top1(i)
            if t is None: return 'error'
            o = []
            for p, q in zip(s.planes(i), s.planes(min(i + 1, s.n - 1))):
                m = np.empty((2 * p.shape[0], p.shape[1]), p.dtype); m[0::2] = p if t else q; m[1::2] = q if t else p; o.append(m)
            return o
        def pr(i):
            d = dict(s.props(i)); d.pop('_Field', None); d['_FieldBased'] = 1 + top1(i)
            return d if i + 1 < s.n else None
        return expect(s, h=s.h * 2, planes=pl, props=pr)
def gen(rng):
    from hc import gen_fmt, gen_dims, pick, LEVELS
    r = lambda a, b: int(rng.integers(a, b + 1))
    fn = pick(rng, 'StackVertical', 'StackHorizontal', 'SplitPlanes', 'ShufflePlanes', 'ShufflePlanes', 'SeparateFields', 'DoubleWeave')
    fmt = gen_fmt(rng); w, h = gen_dims(rng, fmt); a = {}; x = dict(fn=fn, level=pick(rng, *LEVELS), frames=[r(0, 9), r(0, 9), 0])
    sd = lambda: r(0, 1 << 30); mk_ = lambda f, w_, h_, n=None: (sd(), f, w_, h_, n or r(1, 5), pick(rng, (24, 1), (30000, 1001), (0, 0)), False)
    if fn.startswith('Stack'):
        S = []
        for i in range(r(1, 5)):
            w2, h2 = gen_dims(rng, fmt); w2, h2 = (w, h2) if fn == 'StackVertical' else (w2, h)
            if r(0, 25) == 0: w2, h2 = h2, w2
            m = lambda v, s_: max(1, v >> s_) << s_
            f2 = fmt if r(0, 25) else gen_fmt(rng)
            S.append(mk_(f2, m(w2, f2[3]), m(h2, f2[4])))
        x['srcs'] = S
    elif fn == 'SplitPlanes': x['srcs'] = [mk_(fmt, w, h)]
    elif fn == 'ShufflePlanes':
        cf = pick(rng, 1, 2, 3, 3) if r(0, 30) else pick(rng, 0, 4, -1, 1000000, 2000000, 3000000, 4000000, 1 << 32)
        K = 1 if cf == 1 else r(1, 3); kind = r(0, 2)
        if kind == 0: S = [mk_(fmt, w, h) for _ in range(K)]
        elif kind == 1:    # gray planes of related size
            g = (1,) + fmt[1:3] + (0, 0); b = (r(1, 9), r(1, 6)); q = (r(0, 5), r(0, 5)) if cf == 3 and r(0, 3) else (0, 0)
            S = [mk_(g, b[0] << q[0], b[1] << q[1])] + [mk_(g, *b) for _ in range(2)]; S = S[:K]
            if K < 3: S = S[:1] + [S[-1]] * (K - 1)
        else:
            f2 = (3,) + fmt[1:3] + pick(rng, (1, 1), (0, 0), (1, 0)); g = (1,) + fmt[1:3] + (0, 0); w, h = 2 * r(1, 30), 2 * r(1, 10); S = [mk_(g, w, h), mk_(f2, w, h)][:max(2, K)] if cf != 1 else [mk_(f2, w, h)]
        if r(0, 25) == 0: S[-1] = mk_(gen_fmt(rng), *gen_dims(rng, (3, 0, 8, 2, 2)))
        a['colorfamily'] = cf; a['planes'] = [pick(rng, 0, 0, 1, 2, i if kind != 1 else 0, 0) if kind != 1 else 0 for i in range(r(1, 1 if cf == 1 else 3))]
        if kind == 2 and cf != 1 and r(0, 3): a['planes'] = [0, 1, 2] if r(0, 1) else [0, 2, 1]
        if kind == 0 and r(0, 1) and cf != 1: a['planes'] = [0, pick(rng, 1, 2), pick(rng, 1, 2)]
        if r(0, 30) == 0: a['planes'][r(0, len(a['planes']) - 1)] = pick(rng, -1, 3, 1 << 32, -(1 << 40))
        if r(0, 40) == 0: a['planes'] = a['planes'] + [0]
        if r(0, 2) == 0: x['prop_src'] = True; S = S + [mk_((1, 0, 8, 0, 0), 8, 8)]
        x['srcs'] = S
    else:
        if r(0, 30): h = max(1, h >> (fmt[4] + 1)) << (fmt[4] + 1) if fn == 'SeparateFields' else h
        if r(0, 3): a['tff'] = pick(rng, 0, 1, 1, 0, 5, -1, 1 << 32)
        if fn == 'SeparateFields' and r(0, 1): a['modify_duration'] = r(0, 1)
        x['srcs'] = [mk_(fmt, w, h, pick(rng, 1, 2, 3, 4, 5, 5) if r(0, 40) else pick(rng, (1 << 31) - 1, 1 << 30, (1 << 30) - 1))]
    x['args'] = a; return x
def srckw(x):
    mode = x['srcs'][0][0] % 3
    def pf(rng, i):
        d = {}
        if rng.integers(0, 2): d['_FieldBased'] = int(rng.integers(0, 4)) if rng.integers(0, 3) else 1 + mode % 2
        if mode == 0: d['_Field'] = i % 2
        elif mode == 1 and rng.integers(0, 2): d['_Field'] = int(rng.integers(0, 3))
        if rng.integers(0, 2): d['_DurationNum'], d['_DurationDen'] = int(rng.integers(1, 2000)), int(rng.integers(1, 60000))
        return d
    return dict(props=pf)
def clips(x, S):
    if x['fn'] in ('SplitPlanes', 'SeparateFields', 'DoubleWeave'): return {'clip': S[0].node}
    if x.get('prop_src'): return {'clips': [q.node for q in S[:-1]], 'prop_src': S[-1].node}
    return {'clips': [q.node for q in S]}
def run_case(x):
    from hc import filter_case
    return filter_case(x, oracle, clipkey=clips, srckw=srckw)
G8 = (1, 0, 8, 0, 0)
FIXED = [dict(fn='ShufflePlanes', args={'colorfamily': 3, 'planes': [0, 0, 0]}, srcs=[(1, G8, 1 << k, 1 << j, 1, (24, 1), False), (2, G8, 1, 1, 1, (24, 1), False), (3, G8, 1, 1, 1, (24, 1), False)], level='avx2', frames=[0]) for k in (3, 4, 5, 6) for j in (0, 4, 5)]
def hunt(H):
    from hc import hunt_cases
    hunt_cases(H, gen, run_case, FIXED)
def rerun(x):
    from hc import case_of
    return run_case(case_of(x))
