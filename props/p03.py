"""P03 geometric filters: Crop, CropAbs, AddBorders, FlipVertical, FlipHorizontal, Turn180, Transpose, Turn90, Turn270."""
from common import *
LEVEL = 'proof'
SRC, INIT = 'src/core/simplefilters.cpp', r'^stdlibInitialize\('
HUNT_S = {'quick': 25, 'thorough': 400}; HUNT_PARTS = 3
X64 = lambda v: sext(v, 64)
def mod(): return FilterMod((SRC,) + TRFILES, INIT)
TRFILES = ('src/core/kernel/transpose.cpp', 'src/core/kernel/x86/transpose_sse2.cpp')
def sub_of(c, p, ax): return c.field('subSamplingW' if ax == 'w' else 'subSamplingH') if p else c32(0)
def sh(v, ss): return v if isc(ss) and ss.k == 0 else ashr(v, zext(ss, v.w) if ss.w < v.w else ss)
def multiple(v, ss):
    """v is a multiple of 1 << ss"""
    return eq(shl(ashr(v, ss), ss), v)
def fbswap(run, x, c, n, cond):
    mp_ = None
    k = run.api.frame(x.v); mp_ = run.api.log(x.st, k[1].props)[0][1]
    fb = run.api.prop_base('_FieldBased', 'int', mp_, Z64); pres = run.api.prop_base('_FieldBased', 'count', mp_); typ = run.api.prop_base('_FieldBased', 'type', mp_)
    ok = band(slt(c32(0), pres), eq(typ, c32(1)), bor(eq(fb, c64(1)), eq(fb, c64(2))))
    return {'_FieldBased': (band(cond, ok), 'int', ite(eq(fb, c64(1)), c64(2), c64(1)))}

def crop_run(rec, fn, es, planes):
    c = vclip('clip', es, planes); run = Run(mod(), fn, {'clip': clipargs(c)})
    a = {k: ite(v['has'], sat32(v['val']), c32(0)) for k, v in run.args.items() if 'val' in v}
    W, Hh = c.field('width'), c.field('height'); sw, shh = c.field('subSamplingW'), c.field('subSamplingH')
    if fn == 'CropAbs':
        hl, ht = run.args['left']['has'], run.args['top']['has']
        x0 = ite(hl, sat32(run.args['left']['val']), a['x']); y0 = ite(ht, sat32(run.args['top']['val']), a['y'])
        w, h = X64(a['width']), X64(a['height'])
    else:
        x0, y0 = a['left'], a['top']; w = sub(sub(X64(W), X64(x0)), X64(a['right'])); h = sub(sub(X64(Hh), X64(y0)), X64(a['bottom']))
    x6, y6 = X64(x0), X64(y0)
    valid = band(sle(Z64, x6), sle(Z64, y6), slt(Z64, w), slt(Z64, h), sle(add(x6, w), X64(W)), sle(add(y6, h), X64(Hh)))
    if planes == 3:
        valid = band(valid, multiple(x6, zext(sw, 64)), multiple(w, zext(sw, 64)), multiple(y6, zext(shh, 64)), multiple(h, zext(shh, 64)))
    cfg = fmtfacts(c)
    if planes == 3: valid = band(valid)
    w32, h32 = trunc(w, 32), trunc(h, 32)
    def onframe(x, pc, n):
        N = X64(n)
        dims(rec, run, x, pc, lambda p: (sh(w32, sub_of(c, p, 'w')), sh(h32, sub_of(c, p, 'h'))))
        pixels(rec, run, x, pc, lambda p, y, xx: srcpx(run, x.st, c, p, N, add(y, X64(sh(y0, sub_of(c, p, 'h')))), add(xx, X64(sh(x0, sub_of(c, p, 'w'))))))
        k = run.api.frame(x.v)
        props_from(rec, run, x, pc, c, N, fbswap(run, x, c, N, eq(band_(y0, c32(1)), c32(1))) if k[0] == 'new' else None)
    drive(rec, run, valid, vi_same(c, width=w32, height=h32), onframe, cfg)
def band_(a, b): return and_(a, b)
def t_crop(rec, **k): crop_run(rec, 'Crop', **k)
def t_cropabs(rec, **k): crop_run(rec, 'CropAbs', **k)

def t_addborders(rec, es, planes, ncol=0, cf=None, ss=None):
    c = vclip('clip', es, planes, cf=cf, **(dict(subSamplingW=c32(ss[0]), subSamplingH=c32(ss[1])) if ss else {})); col = {'count': c32(ncol or -1), 'get': lambda k, i: uf('arg.color', 64, (i,)), 'has': TRUE if ncol else FALSE}
    run = Run(mod(), 'AddBorders', {'clip': clipargs(c), 'color': col})
    a = {k: X64(ite(v['has'], sat32(v['val']), c32(0))) for k, v in run.args.items() if 'val' in v}
    L, R, T, B = a['left'], a['right'], a['top'], a['bottom']; W, Hh = X64(c.field('width')), X64(c.field('height'))
    zero = band(*[eq(v, Z64) for v in (L, R, T, B)])
    sw, shh = c.field('subSamplingW'), c.field('subSamplingH')
    valid = bor(zero, band(*[sle(Z64, v) for v in (L, R, T, B)], *[multiple(v, zext(s_, 64)) for v, s_ in ((L, sw), (R, sw), (T, shh), (B, shh))]))
    cfg = tuple(fmtfacts(c)) + (sle(add(add(L, R), W), c64(MAXDIM)), sle(add(add(T, B), Hh), c64(MAXDIM)), *[sle(c64(-MAXDIM), v) for v in (L, R, T, B)])
    if ncol: valid = None
    w32, h32 = trunc(add(add(L, R), W), 32), trunc(add(add(T, B), Hh), 32)
    def onframe(x, pc, n):
        N = X64(n)
        dims(rec, run, x, pc, lambda p: (sh(w32, sub_of(c, p, 'w')), sh(h32, sub_of(c, p, 'h'))))
        def spec(p, y, xx):
            l, t = X64(sh(trunc(L, 32), sub_of(c, p, 'w'))), X64(sh(trunc(T, 32), sub_of(c, p, 'h')))
            w, h = X64(sh(c.field('width'), sub_of(c, p, 'w'))), X64(sh(c.field('height'), sub_of(c, p, 'h')))
            inside = band(sle(t, y), slt(y, add(t, h)), sle(l, xx), slt(xx, add(l, w)))
            src = srcpx(run, x.st, c, p, N, sub(y, t), sub(xx, l)); bits = 8 * es
            if ncol: y0, x0 = var('y0', 64, 0, 1 << 31), var('x0', 64, 0, 1 << 31); blk = None
            else:
                mid = trunc(shl(c32(1), sub(c.field('bitsPerSample'), c32(1))), bits)
                blk = const(0, bits) if p == 0 or planes == 1 else ite(band(eq(c.field('colorFamily'), c32(3)), eq(c.field('sampleType'), c32(0))), mid, const(0, bits))
            return inside, src, blk
        y = var('y', 64, 0, 1 << 31); xx = var('x', 64, 0, 1 << 31); y0 = var('y0', 64, 0, 1 << 31); x0 = var('x0', 64, 0, 1 << 31)
        for p, (w, h) in enumerate(outplanes(run, x.v)):
            hy = tuple(pc) + tuple(run.ex.facts) + (slt(y, zext(h, 64)), slt(xx, zext(w, 64)))
            inside, src, blk = spec(p, y, xx); got = outpx(run, x.st, x.v, p, y, xx)
            rec.prove(f'the input is unchanged inside the borders (plane {p})', implies(inside, eq(got, src)), hy)
            if blk is not None: rec.prove(f'the borders are black (plane {p})', implies(bnot(inside), eq(got, blk)), hy)
            else:
                in0, _, _ = spec(p, y0, x0); got0 = outpx(run, x.st, x.v, p, y0, x0)
                rec.prove(f'the borders have a single colour (plane {p})', implies(band(bnot(inside), bnot(in0)), eq(got, got0)), hy + (slt(y0, zext(h, 64)), slt(x0, zext(w, 64))))
        k = run.api.frame(x.v)
        props_from(rec, run, x, pc, c, N, fbswap(run, x, c, N, eq(and_(trunc(T, 32), c32(1)), c32(1))) if k[0] == 'new' else None)
    drive(rec, run, valid, vi_same(c, width=w32, height=h32), onframe, cfg)
def simple_run(rec, fn, es, planes, where, swap=False, cpu=None, **kf):
    c = vclip('clip', es, planes, **kf); run = Run(mod(), fn, {'clip': clipargs(c)}, cpu=cpu, extra=fmtfacts(c))
    W, Hh = c.field('width'), c.field('height')
    vi = vi_same(c)
    if swap: vi = vi_same(c, width=Hh, height=W, subSamplingW=c.field('subSamplingH'), subSamplingH=c.field('subSamplingW'))
    def onframe(x, pc, n):
        N = X64(n)
        pw = lambda p: sh(W, sub_of(c, p, 'w')); ph = lambda p: sh(Hh, sub_of(c, p, 'h'))
        dims(rec, run, x, pc, (lambda p: (ph(p), pw(p))) if swap else (lambda p: (pw(p), ph(p))))
        pixels(rec, run, x, pc, lambda p, y, xx: srcpx(run, x.st, c, p, N, *where(y, xx, X64(pw(p)), X64(ph(p)))))
        props_from(rec, run, x, pc, c, N)
    drive(rec, run, TRUE, vi, onframe, fmtfacts(c))
ONE = c64(1)
WHERE = {'FlipVertical': lambda y, x, w, h: (sub(sub(h, ONE), y), x), 'FlipHorizontal': lambda y, x, w, h: (y, sub(sub(w, ONE), x)),
         'Turn180': lambda y, x, w, h: (sub(sub(h, ONE), y), sub(sub(w, ONE), x)), 'Transpose': lambda y, x, w, h: (x, y),
         'Turn90': lambda y, x, w, h: (sub(sub(h, ONE), x), y), 'Turn270': lambda y, x, w, h: (x, sub(sub(w, ONE), y))}
def t_simple(rec, fn, es, planes, cpu=None, **kf): simple_run(rec, fn, es, planes, WHERE[fn], fn in ('Transpose', 'Turn90', 'Turn270'), cpu, **kf)

def tasks(tier):
    T = []; deep = tier == 'thorough'
    for fn in ('crop', 'cropabs'):
        for es in (1, 2, 4):
            for pl in (1, 3): T.append(('p03', f't_{fn}', f'{fn} {es} bytes {pl} planes', dict(es=es, planes=pl)))
    for es in (1, 2, 4):
        for pl in (1, 3):
            if pl == 1: T.append(('p03', 't_addborders', f'addborders {es} bytes {pl} planes', dict(es=es, planes=pl)))
            elif deep:
                for cf in (2, 3): T.append(('p03', 't_addborders', f'addborders {es} bytes {pl} planes family {cf}', dict(es=es, planes=pl, cf=cf)))
            else:
                for cf, ss in ((2, (0, 0)), (3, (1, 1)), (3, (1, 0)))[:3 if es == 1 else 1 if es == 2 else 0]: T.append(('p03', 't_addborders', f'addborders {es} bytes {pl} planes family {cf} subsampling {ss}', dict(es=es, planes=pl, cf=cf, ss=ss)))
        if es == 1 or deep: T.append(('p03', 't_addborders', f'addborders {es} bytes colour given', dict(es=es, planes=1, ncol=1)))
        for fn in ('FlipVertical', 'FlipHorizontal', 'Turn180'):
            for pl in (1, 3): T.append(('p03', 't_simple', f'{fn} {es} bytes {pl} planes', dict(fn=fn, es=es, planes=pl)))
        for fn in ('Transpose', 'Turn90', 'Turn270'):
            for cpu, cn in ((0, 'scalar'), (1, 'sse2')):
                for pl in (1, 3) if deep or not cpu else (1,) if es > 1 or fn == 'Transpose' else (): T.append(('p03', 't_simple', f'{fn} {es} bytes {pl} planes {cn}', dict(fn=fn, es=es, planes=pl, cpu=cpu)))
    return T

# ---------------------------------------------------------------- concrete search
def oracle(x, S):
    from hc import expect, ssof, clamp32, npdt, nplanes
    import numpy as np, math
    s = S[0]; fn = x['fn']; a = x['args']; fmt = s.fmt; sw, shh = (fmt[3], fmt[4]) if fmt[0] == 3 else (0, 0)
    g = lambda k, d=0: clamp32(a[k]) if k in a else d
    fb = lambda i, odd: dict(s.props(i), _FieldBased=3 - s.props(i)['_FieldBased']) if odd and s.props(i).get('_FieldBased') in (1, 2) else s.props(i)
    if fn in ('Crop', 'CropRel', 'CropAbs'):
        if fn == 'CropAbs': w, h, l, t = g('width'), g('height'), g('left', g('x')), g('top', g('y'))
        else: l, t = g('left'), g('top'); w, h = s.w - l - g('right'), s.h - t - g('bottom')
        if fn != 'CropAbs' and (g('right') < 0 or g('bottom') < 0): return 'error'
        if l < 0 or t < 0 or w <= 0 or h <= 0 or l + w > s.w or t + h > s.h: return 'error'
        if l % (1 << sw) or w % (1 << sw) or t % (1 << shh) or h % (1 << shh): return 'error'
        def pl(i):
            o = []
            for p, q in enumerate(s.planes(i)):
                b, c = ssof(fmt, p); o.append(q[t >> c:(t + h) >> c, l >> b:(l + w) >> b])
            return [np.ascontiguousarray(q) for q in o]
        return expect(s, w=w, h=h, planes=pl, props=lambda i: fb(i, t & 1))
    if fn == 'AddBorders':
        l, r, t, b = g('left'), g('right'), g('top'), g('bottom')
        col = a.get('color')
        if min(l, r, t, b) < 0: return 'error'
        if l + r + t + b == 0: return expect(s) if col is None else None
        if any(v % (1 << sw) for v in (l, r)) or any(v % (1 << shh) for v in (t, b)): return 'error'
        dt = npdt(fmt); n = nplanes(fmt)
        if col is not None:
            if len(col) != n: return 'error'
            if fmt[1] == 0:
                if fmt[2] == 32 and any(v > (1 << 32) - 1 for v in col): return None   # saturates
                if any(not math.isfinite(v) or v < 0 or int(v + 0.5) >= 1 << fmt[2] for v in col): return 'error'
                c = [int(v + 0.5) for v in col]
            else:
                if any(not math.isfinite(float(np.float32(v))) for v in col): return 'error'
                c = [np.float32(v).astype(dt) for v in col]
                if any(not np.isfinite(v) for v in c): return 'error'
        else: c = [0] + [1 << (fmt[2] - 1) if fmt[0] == 3 and fmt[1] == 0 else 0] * 2
        if max(l + r + s.w, t + b + s.h) > 4000: return None
        def pl(i):
            o = []
            for p, q in enumerate(s.planes(i)):
                x_, y_ = ssof(fmt, p); m = np.full((((t + b) >> y_) + q.shape[0], ((l + r) >> x_) + q.shape[1]), c[p], dtype=dt)
                m[t >> y_:(t >> y_) + q.shape[0], l >> x_:(l >> x_) + q.shape[1]] = q; o.append(m)
            return o
        return expect(s, w=s.w + l + r, h=s.h + t + b, planes=pl, props=lambda i: fb(i, t & 1))
    op = {'FlipVertical': lambda q: q[::-1], 'FlipHorizontal': lambda q: q[:, ::-1], 'Turn180': lambda q: q[::-1, ::-1], 'Transpose': lambda q: q.T, 'Turn90': lambda q: np.rot90(q, -1), 'Turn270': lambda q: np.rot90(q, 1)}[fn]
    kw = {}
    if fn in ('Transpose', 'Turn90', 'Turn270'): kw = dict(w=s.h, h=s.w, fmt=fmt[:3] + (fmt[4], fmt[3]))
    elif s.vary: kw = dict(w=0, h=0, fmt=(0, 0, 0, 0, 0))
    if s.vary and kw.get('w'): return 'error'
    return expect(s, planes=lambda i: [np.ascontiguousarray(op(q)) for q in s.planes(i)], **kw)
FNS = ('Crop', 'CropRel', 'CropAbs', 'AddBorders', 'FlipVertical', 'FlipHorizontal', 'Turn180', 'Transpose', 'Turn90', 'Turn270')
def gen(rng):
    from hc import gen_fmt, gen_dims, pick, LEVELS
    r = lambda a, b: int(rng.integers(a, b + 1))
    fn = pick(rng, *FNS); fmt = gen_fmt(rng); w, h = gen_dims(rng, fmt, 0.4 if fn[0] == 'T' else 0.2)
    if fn[0] == 'T' and r(0, 2) == 0: h = max(1, r(20, 140) >> fmt[4]) << fmt[4]
    sw, shh = fmt[3], fmt[4]; a = {}
    wild = lambda v: v if r(0, 60) else pick(rng, -1, v + 1, (1 << 31) - 1, -(1 << 31), (1 << 31) - 2 & ~7, 1 << 32, (1 << 31) - v, w, h, 1 << 62)
    m = lambda v, s_: v if r(0, 40) == 0 else v >> s_ << s_
    if fn in ('Crop', 'CropRel'):
        l = m(r(0, w - 1), sw); ri = m(r(0, max(0, w - l - 1)), sw); t = m(r(0, h - 1), shh); b = m(r(0, max(0, h - t - 1)), shh)
        for k, v in (('left', l), ('right', ri), ('top', t), ('bottom', b)):
            if r(0, 3): a[k] = wild(v)
    elif fn == 'CropAbs':
        l = m(r(0, w - 1), sw); t = m(r(0, h - 1), shh); a = {'width': wild(max(1 << sw, m(r(1, max(1, w - l)), sw))), 'height': wild(max(1 << shh, m(r(1, max(1, h - t)), shh)))}
        if r(0, 3): a[pick(rng, 'left', 'x')] = wild(l)
        if r(0, 3): a[pick(rng, 'top', 'y')] = wild(t)
    elif fn == 'AddBorders':
        for k, s_ in (('left', sw), ('right', sw), ('top', shh), ('bottom', shh)):
            if r(0, 2): v = m(r(0, 40) if r(0, 3) else r(0, 3), s_); a[k] = v if r(0, 60) else pick(rng, -1, -2, v + 1)
        if r(0, 1):
            n = (1 if fmt[0] == 1 else 3) if r(0, 12) else r(1, 4); mx = 1.0 if fmt[1] else float((1 << fmt[2]) - 1)
            a['color'] = [float(pick(rng, 0.0, mx, r(0, 255) / 255 * mx, float(int(mx * r(0, 100) / 100)), mx / 2)) if r(0, 30) else pick(rng, -1.0, mx + 0.4, mx + 0.5, mx + 1, -0.4, 1e30) for _ in range(n)]
    return dict(fn=fn, args=a, srcs=[(r(0, 1 << 30), fmt, w, h, r(1, 3), (24, 1), fn.startswith(('Flip', 'Turn180')) and r(0, 5) == 0)], level=pick(rng, *LEVELS), frames=[r(0, 2), 0])
def srckw(x): return dict(props=lambda rng, i: {'_FieldBased': int(rng.integers(0, 4))} if rng.integers(0, 3) else {})
def run_case(x):
    from hc import filter_case
    return filter_case(x, oracle, srckw=srckw)
G8 = (1, 0, 8, 0, 0); IM = (1 << 31) - 1
FIXED = [dict(fn='Crop', args=a, srcs=[(1, G8, 64, 48, 1, (24, 1), False)], level='avx2', frames=[0]) for a in
         ({'left': IM, 'right': IM}, {'top': IM, 'bottom': IM}, {'left': IM - 1, 'right': 2}, {'left': 0, 'right': 64}, {'top': 1}, {'left': 63})] + \
        [dict(fn='CropAbs', args=a, srcs=[(1, G8, 64, 48, 1, (24, 1), False)], level='avx2', frames=[0]) for a in
         ({'width': IM, 'height': 8, 'left': 10}, {'width': 8, 'height': IM, 'top': 10}, {'width': 8, 'height': 8, 'x': IM}, {'width': 8, 'height': 8, 'x': 3, 'y': 5})]
def hunt(H):
    from hc import hunt_cases
    hunt_cases(H, gen, run_case, FIXED)
def rerun(x):
    from hc import case_of
    return run_case(case_of(x))
