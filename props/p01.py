"""P01 frame-reordering filters."""
from common import *
LEVEL = 'proof'
SRC, INIT = 'src/core/reorderfilters.cpp', r'^reorderInitialize\('
IMAX = (1 << 31) - 1
c32 = lambda v: const(v, 32)
c64 = lambda v: const(v, 64)

def finish(rec, run, valid, vi, fmap, clips, dur=None, deps=True):
    """common postcondition: accepted exactly when valid; stated video info; frame n is the stated source frame.
    fmap(n) -> [(condition, clip, source frame number (64 bit))]"""
    ex = run.ex; n = var('n', 32, 0, MAXFR)
    F = tuple(ex.facts)
    kinds = set()
    for o in run.outs:
        pc = o.st.pc + F
        kinds.add(o.kind)
        if o.kind in ('error',):
            if not run_feasible(o.st, ex): continue
            rec.prove('arguments rejected only when invalid', bnot(valid), pc)
            rec.check('a rejected call returns no clip', not o.also)
            continue
        if o.kind in ('exception', 'nothing'):
            rec.prove(f'create outcome {o.kind} never happens', FALSE, pc); continue
        rec.reach(f'{o.kind} outcome', pc)
        rec.prove('accepted arguments are valid', valid, pc)
        if o.kind == 'pass':
            h = o.nodes[0]
            rec.check('exactly one output', len(o.nodes) == 1)
            c, idx = run.api.node(h)
            for f, t in vi.items(): rec.prove(f'passthrough {f}', eq(c.field(f), t), pc)
            m = sext(n, 64)
            alts = fmap(n)
            g = bor(*[band(cc, eq(sn, m)) if cl is c else FALSE for cc, cl, sn in alts])
            rec.prove('passthrough returns frame n of the input', g, pc + (slt(n, vi['numFrames']),))
            continue
        for f, t in vi.items(): rec.prove(f'output {f}', eq(o.vi[f], t), pc)
        rec.prove('output length positive', slt(c32(0), o.vi['numFrames']), pc)
        for x in run.frame(o, n):
            pcx = x.st.pc + F
            if not run_feasible(x.st, ex): continue
            if x.kind != 'frame': rec.prove(f'frame request outcome {x.kind} never happens', FALSE, pcx); continue
            requests(rec, run, x, pcx)
            frame_is(rec, run, x, pcx, fmap(n), dur)
    rec.check('some arguments are accepted', kinds & {'filter', 'pass'})
    rec.side(ex)

def frame_is(rec, run, x, pc, alts, dur):
    """result frame x.v equals the source frame given by alts (pixels and properties); dur scales the duration"""
    api = run.api
    k = api.frame(x.v)
    if k[0] == 'in':
        rec.prove('frame n is the documented source frame', bor(*[band(cc, eq(sn, k[3])) for cc, cl, sn in alts if cl is k[1]]), pc)
        if dur is not None:
            rec.prove('durations are rescaled when asked', bnot(dur[0]), pc)
        return
    fo = k[1]
    # copied frame
    srcs = set()
    for p, r in enumerate(fo.planes):
        co = r.info.get('copyof')
        if co is None or x.st.mem.get(r) is not None and x.st.mem[r].log:
            rec.fail('pixels are those of the source frame', f'plane {p} is not an unmodified copy'); return
        c = co[0].info.get('clip')
        rec.check(f'plane {p} comes from the same plane', c is not None and co[0] is api.clip_plane(c, p, Z64))
        try: fno = decomp(co[1], ((c.F, 1),)); fno = fno[0] if isc(fno[1]) and fno[1].k == 0 else None
        except Unsup: fno = None
        rec.prove(f'plane {p} is the documented source frame', bor(*[band(cc, eq(sn, fno) if fno is not None else eq(mul(sn, c.F), co[1])) for cc, cl, sn in alts if cl is c]), pc)
    log = api.log(x.st, fo.props)
    if not log or log[0][0] != 'from': rec.fail('properties come from the source frame'); return
    mp = log[0][1]; c = mp.r.info['clip']
    rec.prove('properties are those of the documented source frame', bor(*[band(cc, eq(sn, mp.o)) for cc, cl, sn in alts if cl is c]), pc)
    both = TRUE; val = {}
    for key in ('_DurationNum', '_DurationDen'):
        both = band(both, slt(c32(0), api.prop_base(key, 'count', mp)), eq(api.prop_base(key, 'type', mp), c32(1)))
        val[key] = api.prop_base(key, 'int', mp, Z64)
    sets = {op[1]: op for op in log[1:]}
    if not sets:
        rec.prove('durations are rescaled when asked', bnot(band(dur[0], both)) if dur else TRUE, pc); return
    rec.check('only the duration properties change', set(sets) == set(val) and all(o[0] == 'set' and o[2] == 'int' and len(o[3]) == 1 for o in log[1:]), str(sets))
    if dur is None: rec.fail('no property changes'); return
    rec.prove('durations change only when asked and present', band(dur[0], both), pc)
    for key, suf in (('_DurationNum', 'num'), ('_DurationDen', 'den')):
        if key in sets: rec.prove(f'{key} is the scaled duration', eq(sets[key][3][0], uf('muldiv.' + suf, 64, (val['_DurationNum'], val['_DurationDen'], dur[1], dur[2]))), pc)

def vi_of(c, **over):
    d = {f: c.field(f) for f in VI.values()}
    d.update(over); return d
def mod(): return FilterMod(SRC, INIT)

def t_trim(rec):
    c = Clip('clip', numPlanes=3); run = Run(mod(), 'Trim', {'clip': clipargs(c)})
    a = run.args; N = c.field('numFrames')
    hf, hl, hn = a['first']['has'], a['last']['has'], a['length']['has']
    first = ite(hf, sat32(a['first']['val']), c32(0)); last = sat32(a['last']['val']); ln = sat32(a['length']['val'])
    f, l, k, NN = (sext(v, 64) for v in (first, last, ln, N))
    valid = band(sle(c64(0), f), slt(f, NN), bnot(band(hl, hn)), implies(hl, band(sle(f, l), slt(l, NN))), implies(hn, band(sle(c64(1), k), sle(add(f, k), NN))))
    count = ite(hl, add(sub(l, f), c64(1)), ite(hn, k, sub(NN, f)))
    finish(rec, run, valid, vi_of(c, numFrames=trunc(count, 32)), lambda n: [(TRUE, c, add(sext(n, 64), f))], [c])
def t_reverse(rec):
    c = Clip('clip', numPlanes=3); run = Run(mod(), 'Reverse', {'clip': clipargs(c)})
    finish(rec, run, TRUE, vi_of(c), lambda n: [(TRUE, c, sub(sub(sext(c.field('numFrames'), 64), c64(1)), sext(n, 64)))], [c])
def t_loop(rec):
    c = Clip('clip', numPlanes=3); run = Run(mod(), 'Loop', {'clip': clipargs(c)})
    a = run.args['times']; t = ite(a['has'], sat32(a['val']), c32(0)); N = c.field('numFrames')
    prod = mul(sext(N, 64), sext(t, 64))
    valid = band(sle(c32(0), t), sle(prod, c64(IMAX)))
    count = ite(eq(t, c32(0)), c32(IMAX), trunc(prod, 32))
    finish(rec, run, valid, vi_of(c, numFrames=count), lambda n: [(TRUE, c, zext(urem(n, N), 64))], [c])

FMTF = [v for k, v in VI.items() if v in ('colorFamily', 'sampleType', 'bitsPerSample', 'subSamplingW', 'subSamplingH')]
def common_vi(clips, valid_of):
    """shared video info of several clips: fields that differ become undefined"""
    c0 = clips[0]
    same = lambda fs: band(*[eq(c.field(f), c0.field(f)) for c in clips[1:] for f in fs])
    dim = same(['width', 'height']); fps = same(['fpsNum', 'fpsDen']); fmt = same(FMTF)
    return dim, fmt, fps
def fmt_clip(name):
    """a clip whose derived format fields follow from the others, as the core guarantees"""
    c = Clip(name, numPlanes=3)
    c.f['colorFamily'] = var(f'{name}.cf', 32, 2, 3)
    c.f['bytesPerSample'] = const(2, 32)
    c.f['bitsPerSample'] = var(f'{name}.bits', 32, 9, 16)
    return c
def t_interleave(rec, k):
    rec.bounded.add(f'Interleave: {k} input clips (length of the clip list is bounded; everything else is not)')
    cs = [fmt_clip(f'clip{i}') for i in range(k)]
    run = Run(mod(), 'Interleave', {'clips': clipargs(*cs)})
    a = run.args; on = lambda nm, d: ite(a[nm]['has'], ne(a[nm]['val'], Z64), d)
    extend, mism, modd = on('extend', FALSE), on('mismatch', FALSE), on('modify_duration', TRUE)
    K = c64(k); NF = [sext(c.field('numFrames'), 64) for c in cs]
    mx = NF[0]
    for v in NF[1:]: mx = smax(mx, v)
    if k == 1:
        finish(rec, run, TRUE, vi_of(cs[0]), lambda n: [(TRUE, cs[0], sext(n, 64))], cs); return
    dim, fmt, fps = common_vi(cs, None)
    total = Z64
    for i, v in enumerate(NF): total = smax(total, add(scale(sub(v, c64(1)), k), c64(i + 1)))
    count = ite(extend, scale(mx, k), total)
    valid = band(bor(mism, band(dim, fmt, fps)), sle(count, c64(IMAX)))
    fn = ite(fps, cs[0].field('fpsNum'), Z64); fd = ite(fps, cs[0].field('fpsDen'), Z64)
    vi = {'numFrames': trunc(count, 32), 'width': ite(dim, cs[0].field('width'), c32(0)), 'height': ite(dim, cs[0].field('height'), c32(0)),
          'fpsNum': ite(modd, uf('muldiv.num', 64, (fn, fd, K, c64(1))), fn), 'fpsDen': ite(modd, uf('muldiv.den', 64, (fn, fd, K, c64(1))), fd)}
    for f in FMT.values(): vi[f] = ite(fmt, cs[0].field(f), c32(0))
    def fmap(n):
        q = sext(udiv(n, c32(k)), 64); r = urem(n, c32(k))
        return [(eq(r, c32(i)), c, ite(slt(q, sext(c.field('numFrames'), 64)), q, sub(sext(c.field('numFrames'), 64), c64(1)))) for i, c in enumerate(cs)]
    finish(rec, run, valid, vi, fmap, cs, (modd, c64(1), K))
def t_splice(rec, k):
    rec.bounded.add(f'Splice: {k} input clips (length of the clip list is bounded; everything else is not)')
    cs = [fmt_clip(f'clip{i}') for i in range(k)]
    run = Run(mod(), 'Splice', {'clips': clipargs(*cs)})
    a = run.args; mism = band(a['mismatch']['has'], ne(a['mismatch']['val'], Z64))
    if k == 1:
        finish(rec, run, TRUE, vi_of(cs[0]), lambda n: [(TRUE, cs[0], sext(n, 64))], cs); return
    dim, fmt, fps = common_vi(cs, None)
    NF = [sext(c.field('numFrames'), 64) for c in cs]; cum = [Z64]
    for v in NF: cum.append(add(cum[-1], v))
    valid = band(bor(mism, band(dim, fmt)), sle(cum[-1], c64(IMAX)))
    vi = {'numFrames': trunc(cum[-1], 32), 'width': ite(dim, cs[0].field('width'), c32(0)), 'height': ite(dim, cs[0].field('height'), c32(0)),
          'fpsNum': ite(fps, cs[0].field('fpsNum'), Z64), 'fpsDen': ite(fps, cs[0].field('fpsDen'), Z64)}
    for f in FMT.values(): vi[f] = ite(fmt, cs[0].field(f), c32(0))
    def fmap(n):
        m = sext(n, 64)
        return [(band(sle(cum[i], m), slt(m, cum[i + 1])), c, sub(m, cum[i])) for i, c in enumerate(cs)]
    finish(rec, run, valid, vi, fmap, cs)
def t_selectevery(rec, k):
    rec.bounded.add(f'SelectEvery: {k} offsets (length of the list is bounded; everything else is not)')
    c = fmt_clip('clip'); offs = intlist('offsets', k); 
    run = Run(mod(), 'SelectEvery', {'clip': clipargs(c), 'offsets': offs})
    a = run.args; cyc = sext(sat32(a['cycle']['val']), 64); modd = ite(a['modify_duration']['has'], ne(a['modify_duration']['val'], Z64), TRUE)
    of = [sext(sat32(v), 64) for v in offs['vals']]; N = sext(c.field('numFrames'), 64)
    N32 = c.field('numFrames'); c32_ = sat32(a['cycle']['val'])
    full_ = sext(sdiv(N32, c32_), 64); rest = sext(srem(N32, c32_), 64)
    cnt = scale(full_, k); keep = [slt(v, rest) for v in of]
    for b in keep: cnt = add(cnt, zext1(b, 64))
    valid = band(slt(c64(1), cyc), *[band(sle(Z64, v), slt(v, cyc)) for v in of], slt(Z64, cnt), sle(cnt, c64(IMAX)))
    fn, fd = c.field('fpsNum'), c.field('fpsDen'); K = c64(k)
    vi = vi_of(c, numFrames=trunc(cnt, 32), fpsNum=ite(modd, uf('muldiv.num', 64, (fn, fd, K, cyc)), fn), fpsDen=ite(modd, uf('muldiv.den', 64, (fn, fd, K, cyc)), fd))
    def fmap(n):
        q = sext(udiv(n, c32(k)), 64); r = urem(n, c32(k)); alts = []
        b32 = mul(udiv(n, c32(k)), c32_); o32 = [sat32(v) for v in offs['vals']]
        for i in range(k): alts.append((band(slt(q, full_), eq(r, c32(i))), c, sext(add(b32, o32[i]), 64)))
        # last, partial cycle: offsets that fall inside it, in the given order
        for i in range(k):
            pos = Z64
            for j in range(i): pos = add(pos, zext1(keep[j], 64))
            alts.append((band(eq(q, full_), keep[i], eq(sext(r, 64), pos)), c, sext(add(b32, o32[i]), 64)))
        return alts
    # lemmas: the frame numbers above are inside the clip and their 32-bit arithmetic does not wrap
    n = var('n', 32, 0, MAXFR); q32 = udiv(n, c32(k)); F32 = sdiv(N32, c32_); R32 = srem(N32, c32_); b32 = mul(q32, c32_)
    Q, Fq, Rq, C = (var(x, 64, 0, IMAX) for x in 'QFRC')
    rec.prove('lemma: Q < F and F*C <= N give Q*C + C <= N', sle(add(mul(Q, C), C), N), [slt(Q, Fq), sle(mul(Fq, C), N)], kind='lemma')
    for i in range(k):
        o = sat32(offs['vals'][i]); m = add(b32, o); inside = band(sle(c32(0), m), slt(m, N32))
        base = [slt(c32(1), c32_), sle(c32(0), o), slt(o, c32_)]
        fact = [sle(mul(sext(F32, 64), cyc), N), eq(add(mul(sext(F32, 64), cyc), sext(R32, 64)), N), sle(c32(0), F32), sle(c32(0), R32)]
        for f in fact: rec.prove('lemma: quotient and remainder of the clip length', f, base, kind='lemma')
        M = sext(q32, 64)
        l1 = band(sle(c32(0), q32), slt(q32, F32)); l2 = band(eq(q32, F32), slt(o, R32))
        rec.prove('lemma: a frame of a full cycle is inside the clip', inside, base + fact + [l1, sle(add(mul(M, cyc), cyc), N)], kind='lemma')
        rec.prove('lemma: a frame of the last cycle is inside the clip', inside, base + fact + [l2], kind='lemma')
        run.ex.facts.append(implies(band(*base, bor(l1, l2)), inside))
    finish(rec, run, valid, vi, fmap, [c], (modd, cyc, K))
def t_duplicate(rec, k):
    rec.bounded.add(f'DuplicateFrames: {k} listed frames (length of the list is bounded)')
    c = Clip('clip', numPlanes=3); fr = intlist('frames', k)
    run = Run(mod(), 'DuplicateFrames', {'clip': clipargs(c), 'frames': fr})
    N = sext(c.field('numFrames'), 64); vs = [sext(sat32(v), 64) for v in fr['vals']]
    valid = band(*[band(sle(Z64, v), slt(v, N)) for v in vs], sle(add(N, c64(k)), c64(IMAX)))
    def fmap(n):
        # output n is source m when  m + #{v < m} <= n <= m + #{v <= m}
        m = var('m', 64, 0, MAXFR)
        return m, vs, n
    class FM:
        pass
    def alts(n):
        out = []
        # m = n - j for the number j of duplicates placed before it
        for j in range(k + 1):
            m = sub(sext(n, 64), c64(j))
            lo = m; hi = m
            for v in vs: lo = add(lo, zext1(slt(v, m), 64)); hi = add(hi, zext1(sle(v, m), 64))
            out.append((band(sle(Z64, m), slt(m, N), sle(lo, sext(n, 64)), sle(sext(n, 64), hi)), c, m))
        return out
    finish(rec, run, valid, vi_of(c, numFrames=trunc(add(N, c64(k)), 32)), alts, [c])
def t_delete(rec, k):
    rec.bounded.add(f'DeleteFrames: {k} listed frames (length of the list is bounded)')
    c = Clip('clip', numPlanes=3); fr = intlist('frames', k)
    run = Run(mod(), 'DeleteFrames', {'clip': clipargs(c), 'frames': fr})
    N = sext(c.field('numFrames'), 64); vs = [sext(sat32(v), 64) for v in fr['vals']]
    valid = band(*[band(sle(Z64, v), slt(v, N)) for v in vs], *[ne(vs[i], vs[j]) for i in range(k) for j in range(i)], slt(c64(k), N))
    def alts(n):
        out = []
        for j in range(k + 1):
            m = add(sext(n, 64), c64(j))       # kept frame with exactly j deleted frames before it
            cntb = Z64; isdel = FALSE
            for v in vs: cntb = add(cntb, zext1(slt(v, m), 64)); isdel = bor(isdel, eq(v, m))
            out.append((band(slt(m, N), bnot(isdel), eq(cntb, c64(j))), c, m))
        return out
    finish(rec, run, valid, vi_of(c, numFrames=trunc(sub(N, c64(k)), 32)), alts, [c])
def t_freeze(rec, k):
    rec.bounded.add(f'FreezeFrames: {k} ranges (length of the list is bounded)')
    c = Clip('clip', numPlanes=3); A = {x: intlist(x, k) for x in ('first', 'last', 'replacement')}
    run = Run(mod(), 'FreezeFrames', {'clip': clipargs(c), **A})
    N = sext(c.field('numFrames'), 64); g = lambda x: [sext(sat32(v), 64) for v in A[x]['vals']]
    f0, l0, rp = g('first'), g('last'), g('replacement')
    f = [smin(a, b) for a, b in zip(f0, l0)]; l = [smax(a, b) for a, b in zip(f0, l0)]
    valid = band(*[band(sle(Z64, f[i]), slt(l[i], N), sle(Z64, rp[i]), slt(rp[i], N)) for i in range(k)], *[bor(slt(l[i], f[j]), slt(l[j], f[i])) for i in range(k) for j in range(i)])
    def alts(n):
        m = sext(n, 64); ins = [band(sle(f[i], m), sle(m, l[i])) for i in range(k)]
        return [(ins[i], c, rp[i]) for i in range(k)] + [(bnot(bor(*ins)), c, m)]
    finish(rec, run, valid, vi_of(c), alts, [c])
def t_freeze_mismatch(rec):
    c = Clip('clip', numPlanes=3); A = {'first': intlist('first', 2), 'last': intlist('last', 1), 'replacement': intlist('replacement', 2)}
    run = Run(mod(), 'FreezeFrames', {'clip': clipargs(c), **A})
    finish2 = [o.kind for o in run.outs]
    rec.check('lists of different length are rejected', all(k == 'error' for k in finish2), str(finish2)); rec.side(run.ex)

def tasks(tier):
    K = 3 if tier == 'quick' else 4; KS = 2 if tier == 'quick' else 3
    T = [('p01', f, f[2:], {}) for f in ('t_trim', 't_reverse', 't_loop')]
    for k in range(1, K + 1):
        for f in ('t_interleave', 't_splice', 't_selectevery', 't_duplicate', 't_delete'):
            if f == 't_selectevery' and k > KS: continue
            T.append(('p01', f, f'{f[2:]} {k}', {'k': k}))
    for k in range(0, K): T.append(('p01', 't_freeze', f'freeze {k}', {'k': k}))
    T.append(('p01', 't_freeze_mismatch', 'freeze mismatch', {}))
    return T[::-1]

# ------------------------------------------------------------------ search on the real build
HUNT_S = {'quick': 25, 'thorough': 400}
HUNT_PARTS = 3
def oracle(fn, a, srcs):
    """-> 'error' or (frame list function/len, fps, duration factor)"""
    from hc import clamp32, muldiv, INT_MAX
    g = lambda k, d=None: clamp32(a[k]) if a.get(k) is not None else d
    N = [s[1] for s in srcs]; F = srcs[0][2]
    if fn == 'Trim':
        f, l, ln = g('first', 0), g('last'), g('length')
        if l is not None and ln is not None: return 'error'
        if f < 0 or f >= N[0]: return 'error'
        if l is not None:
            if l < f or l >= N[0]: return 'error'
            c = l - f + 1
        elif ln is not None:
            if ln < 1 or f + ln > N[0]: return 'error'
            c = ln
        else: c = N[0] - f
        return c, (lambda n: (0, n + f)), F, None
    if fn == 'Reverse': return N[0], (lambda n: (0, N[0] - 1 - n)), F, None
    if fn == 'Loop':
        t = g('times', 0)
        if t < 0: return 'error'
        c = INT_MAX if t == 0 else N[0] * t
        if c > INT_MAX: return 'error'
        return c, (lambda n: (0, n % N[0])), F, None
    if fn == 'Splice':
        if len({s[3] for s in srcs}) > 1 and not a.get('mismatch'): return 'error'
        if sum(N) > INT_MAX: return 'error'
        fps = F if len({s[2] for s in srcs}) == 1 else (0, 0)
        def m(n):
            for i, k in enumerate(N):
                if n < k: return i, n
                n -= k
        return sum(N), m, fps, None
    if fn == 'Interleave':
        K = len(srcs)
        if K == 1: return N[0], (lambda n: (0, n)), F, None
        if (len({s[3] for s in srcs}) > 1 or len({s[2] for s in srcs}) > 1) and not a.get('mismatch'): return 'error'
        c = max(N) * K if a.get('extend') else max((v - 1) * K + i + 1 for i, v in enumerate(N))
        if c > INT_MAX: return 'error'
        fps = F if len({s[2] for s in srcs}) == 1 else (0, 0)
        md = a.get('modify_duration', 1)
        return c, (lambda n: (n % K, min(n // K, N[n % K] - 1))), (muldiv(*fps, K, 1) if md else fps), ((1, K) if md else None)
    if fn == 'SelectEvery':
        cyc = g('cycle'); offs = [clamp32(x) for x in a['offsets']]
        if cyc <= 1 or any(o < 0 or o >= cyc for o in offs): return 'error'
        K = len(offs); full, rest = divmod(N[0], cyc); tail = [o for o in offs if o < rest]
        c = full * K + len(tail)
        if c == 0 or c > INT_MAX: return 'error'
        md = a.get('modify_duration', 1)
        return c, (lambda n: (0, (n // K) * cyc + (offs[n % K] if n // K < full else tail[n % K]))), (muldiv(*F, K, cyc) if md else F), ((cyc, K) if md else None)
    if fn == 'DuplicateFrames':
        fr = [clamp32(x) for x in a['frames']]
        if any(x < 0 or x >= N[0] for x in fr) or N[0] + len(fr) > INT_MAX: return 'error'
        if N[0] < 4000:
            l = []
            for i in range(N[0]): l += [i] * (1 + fr.count(i))
            return len(l), (lambda n: (0, l[n])), F, None
        s = sorted(fr)
        def m(n):
            for x in s:
                if n > x: n -= 1
                else: break
            return 0, n
        return N[0] + len(fr), m, F, None
    if fn == 'DeleteFrames':
        fr = [clamp32(x) for x in a['frames']]
        if any(x < 0 or x >= N[0] for x in fr) or len(set(fr)) != len(fr) or len(fr) >= N[0]: return 'error'
        s = sorted(fr)
        def m(n):
            for x in s:
                if n >= x: n += 1
            return 0, n
        return N[0] - len(fr), m, F, None
    if fn == 'FreezeFrames':
        f, l, r = ([clamp32(x) for x in a[k]] for k in ('first', 'last', 'replacement'))
        if not len(f) == len(l) == len(r): return 'error'
        R = [(min(x, y), max(x, y), z) for x, y, z in zip(f, l, r)]
        if any(x < 0 or y >= N[0] or z < 0 or z >= N[0] for x, y, z in R): return 'error'
        for i in range(len(R)):
            for j in range(i):
                if not (R[i][1] < R[j][0] or R[j][1] < R[i][0]): return 'error'
        def m(n):
            for x, y, z in R:
                if x <= n <= y: return 0, z
            return 0, n
        return N[0], m, F, None
def gen(rng):
    from hc import pick
    r = lambda a, b: int(rng.integers(a, b + 1))
    fn = pick(rng, 'Trim', 'Reverse', 'Loop', 'Splice', 'Interleave', 'SelectEvery', 'DuplicateFrames', 'DeleteFrames', 'FreezeFrames')
    big = r(0, 9) == 0
    def length(): return pick(rng, INT_MAX_, INT_MAX_ - 1, INT_MAX_ // 2, INT_MAX_ // 3 + 1, 100000) if big and r(0, 1) else r(1, 12) if r(0, 2) else r(1, 60)
    K = r(1, 5) if fn in ('Splice', 'Interleave') else 1
    srcs = []
    for i in range(K):
        srcs.append((i, length(), (24, 1) if r(0, 8) else pick(rng, (30000, 1001), (0, 0)), (16, 4) if r(0, 9) else (24, 4), r(0, 3) > 0))
    N = srcs[0][1]; a = {}
    fr = lambda: pick(rng, r(0, max(0, N - 1)), r(0, max(0, N - 1)), r(0, max(0, N - 1)), r(0, max(0, N - 1)), r(-2, N + 2), 0, N - 1)
    wild = lambda v: v if r(0, 30) else pick(rng, -(1 << 31), (1 << 31) - 1, 1 << 32, -(1 << 40), (1 << 62), v + (1 << 32))
    if fn == 'Trim':
        if r(0, 1): a['first'] = wild(fr())
        k = r(0, 5)
        if k in (0, 1, 5): a['last'] = wild(fr())
        if k in (2, 3, 5): a['length'] = wild(r(1, max(1, N - max(0, min(N, a.get('first', 0))))) if r(0, 2) else r(-1, N + 1))
    elif fn == 'Loop': a = {} if not r(0, 4) else {'times': wild(r(-1, 9))} if r(0, 6) else {'times': pick(rng, INT_MAX_ // N, INT_MAX_ // N + 1)}
    elif fn == 'Splice':
        if r(0, 1): a['mismatch'] = r(0, 1)
    elif fn == 'Interleave':
        for k in ('mismatch', 'extend', 'modify_duration'):
            if r(0, 1): a[k] = r(0, 1)
    elif fn == 'SelectEvery':
        a['cycle'] = wild(r(2, 9)) if r(0, 9) else r(-1, 80)
        a['offsets'] = [wild(r(0, max(0, min(a['cycle'], 90) - 1))) if r(0, 30) else r(-1, 10) for _ in range(r(1, 6))]
        if r(0, 1): a['modify_duration'] = r(0, 1)
    elif fn in ('DuplicateFrames', 'DeleteFrames'):
        n = r(1, 6); a['frames'] = [wild(fr()) for _ in range(n)]
        if fn == 'DeleteFrames' and r(0, 4): a['frames'] = list(dict.fromkeys(a['frames']))
    elif fn == 'FreezeFrames':
        n = r(1, 4); cuts = sorted(set(r(0, max(0, N - 1)) for _ in range(2 * n)))
        R = [(cuts[i], cuts[i + 1]) for i in range(0, len(cuts) - 1, 2)] or [(fr(), fr())]
        if not r(0, 5): R[0] = (fr(), fr())
        rng.shuffle(R)
        R = [tuple(int(v) for v in (x if r(0, 2) else x[::-1])) for x in R]
        a = {'first': [x[0] for x in R], 'last': [x[1] for x in R], 'replacement': [wild(fr()) for _ in R]}
        if not r(0, 25): a['last'] = a['last'] + [0]
    return fn, a, srcs
INT_MAX_ = IMAX
def run_case(fn, a, srcs, rng=None, frames=None):
    """None, or what is wrong"""
    import vs
    from hc import idx_source, frame_ident, call, muldiv
    core = run_case.core = getattr(run_case, 'core', None) or vs.Core(threads=2)
    dur = lambda i: (1 + i % 7, 24 + i % 3)
    nodes = [idx_source(core, cid, n, tuple(fps), w=size[0], h=size[1], dur=dur if wd else None) for cid, n, fps, size, wd in srcs]
    args = dict(a); args['clips' if fn in ('Splice', 'Interleave') else 'clip'] = nodes if fn in ('Splice', 'Interleave') else nodes[0]
    exp = oracle(fn, a, [(c, n, tuple(f), tuple(sz)) for c, n, f, sz, _ in srcs])
    st, r = call(core, 'std', fn, **args)
    if exp == 'error': return None if st == 'error' else 'invalid arguments were accepted'
    if st == 'error': return f'valid arguments were rejected: {r}'
    c, m, fps, df = exp; nd = r['clip'][1][0]; vi = nd.vi
    if vi.numFrames != c: return f'output has {vi.numFrames} frames instead of {c}'
    if (vi.fpsNum, vi.fpsDen) != tuple(fps): return f'output rate {vi.fpsNum}/{vi.fpsDen} instead of {fps}'
    ns = frames
    if ns is None:
        ns = list(range(c)) if c <= 70 else sorted({0, 1, c - 1, c - 2, c // 2} | {int(x) for x in rng.integers(0, c, 6)})
        rng.shuffle(ns)
    for n in ns:
        n = int(n)
        try: f = nd.frame(n)
        except vs.VSError as e: return f'frame {n}: {e}'
        cid, i, ok, p = frame_ident(f)
        if (cid, i) != tuple(m(n)): return f'frame {n} is frame {i} of clip {cid} instead of {m(n)}'
        if not ok: return f'frame {n}: content changed'
        if srcs[cid][4]:
            e = dur(i); e = muldiv(*e, *df) if df else e
            if (p['_DurationNum'][1], p['_DurationDen'][1]) != ([e[0]], [e[1]]): return f'frame {n}: duration {p["_DurationNum"][1]}/{p["_DurationDen"][1]} instead of {e}'
        elif '_DurationNum' in p: return f'frame {n}: unexpected duration'
    return None
def hunt(H):
    H.check(True, '')
    fixed_ = [('DeleteFrames', {'frames': [0, 1, 2]}, [(0, 6, (24, 1), (16, 4), True)]), ('Trim', {'first': 1, 'last': 0}, [(0, 6, (24, 1), (16, 4), True)])]
    for fn, a, srcs in fixed_ if H.part == 0 else []:
        H.case(fn, args=a, srcs=srcs); w = run_case(fn, a, srcs, H.rng)
        if w: H.fail(w)
    while H.go():
        fn, a, srcs = gen(H.rng)
        H.case(fn, args=a, srcs=srcs)
        w = run_case(fn, a, srcs, H.rng)
        if w: H.fail(w)
def rerun(x): return run_case(x['kind'], x['args'], x['srcs'], __import__('numpy').random.default_rng(1))
