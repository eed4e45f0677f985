"""P02 audio editing filters."""
import math
from common import *
LEVEL = 'proof'
HUNT_S = {'quick': 25, 'thorough': 250}; HUNT_PARTS = 4
TASK_S = {'quick': 120, 'thorough': 900}
SRC, INIT = 'src/core/audiofilters.cpp', r'^audioInitialize\('
def mod():
    import term
    solve.FEAS_INT = True; term.REM_HOOK.clear(); term.MUL_HOOK.clear()
    return FilterMod(SRC, INIT)
AS = 3072
def big(q, r): return add(scale(zext(q, 64) if q.w < 64 else q, AS), r)
def aclip(name, es=2, ch=2, st=None, short=False):
    """an audio clip; its length is 3072*q + r + 1 samples in q + 1 frames (any length has exactly one such form)"""
    q = var(f'{name}.q', 32, 0, MAXFR - 2) if not short else c32(0); r = var(f'{name}.r', 64, 0, AS - 1)
    c = Clip(name, audio=True, numChannels=ch, bytesPerSample=es)
    c.f['bitsPerSample'] = c32(16) if es == 2 else c32(32) if st == 1 else var(f'{name}.bits', 32, 17, 32)
    c.f['sampleType'] = c32(0) if es == 2 else c32(st or 0)
    c.q, c.r = q, r
    c.f['numSamples'] = add(big(q, r), c64(1)); c.f['numFrames'] = add(q, c32(1))
    return c
def avi(c, **over):
    d = {f: c.field(f) for f in AI.values() if f != 'numFrames'}; d.update(over); return d
def sample(run, st, c, ch, fr, off):
    r = run.api.clip_plane(c, ch, Z64); sv = run.ex.curloop; run.ex.curloop = []
    v = run.ex.read_elem(st, r, add(mul(fr, c.F), scale(off, r.es)), r.es); run.ex.curloop = sv
    return v
def outsample(run, st, fp, ch, i):
    k = run.api.frame(fp)
    if k[0] == 'in': return sample(run, st, k[1], ch, k[3], i)
    r = k[1].planes[ch]
    if r.init is None: r.init = lambda ex, st, r, o, n, t: uf('unwritten.' + r.name, n * 8, (o,))
    return run.ex.read_elem(st, r, scale(i, r.es), r.es)
def flen(run, fp): return run.api.flen(fp)
def aframe(rec, run, x, pc, n, total, c, spec, nch=None):
    """the frame has the right length and format and holds spec(channel, i) -> [(condition, value)]"""
    want = smin(c64(AS), sub(total, scale(sext(n, 64), AS))); k = run.api.frame(x.v)
    L = sext(flen(run, x.v), 64)
    rec.prove('the frame has the documented number of samples', eq(L, want), pc)
    if k[0] == 'new':
        for f in ('sampleType', 'bitsPerSample', 'channelLayout'): rec.prove(f'frame {f}', eq(k[1].fmt[f], c.field(f) if nch is None or f != 'channelLayout' else nch[1]), pc)
        rec.check('number of channels', len(k[1].planes) == (c.field('numChannels').k if nch is None else nch[0]))
    i = var('i', 64, 0, AS - 1)
    for p in range(c.field('numChannels').k if nch is None else nch[0]):
        got = outsample(run, x.st, x.v, p, i)
        for j, (g, w) in enumerate(spec(p, i, x)):
            if g is FALSE: continue
            rec.prove(f'every sample is the documented one (channel {p}, case {j})', implies(g, eq(got, w)), tuple(pc) + (slt(i, want),))
def adrive(rec, run, valid, vi, ns, onframe, onpass=None, passok=TRUE):
    """ns: [(condition, frame number term)] covering every frame number"""
    ex = run.ex; kinds = set(); rec.first = 'int'
    for o in run.outs:
        F = tuple(ex.facts); pc = tuple(o.st.pc) + F
        if not solve.feasible(tuple(o.st.pc)): continue
        kinds.add(o.kind)
        if o.kind == 'error':
            rec.prove('arguments rejected only when invalid', bnot(valid), pc); rec.check('a rejected call returns no clip', not o.also); continue
        if o.kind in ('exception', 'nothing'): rec.prove(f'create outcome {o.kind} never happens', FALSE, pc); continue
        rec.reach(f'{o.kind} outcome', pc); rec.prove('accepted arguments are valid', valid, pc)
        if o.kind == 'pass':
            rec.check('exactly one output', len(o.nodes) == 1); c, idx = run.api.node(o.nodes[0])
            for f, t in vi.items(): rec.prove(f'passthrough {f}', eq(c.field(f), t), pc)
            if onpass: onpass(o, c, pc)
            continue
        for f, t in vi.items(): rec.prove(f'output {f}', eq(o.vi[f], t), pc)
        rec.prove('output length is positive', slt(Z64, o.vi['numSamples']), pc)
        for cond, n in ns:
            for x in run.frame(o, n, extra=cond):
                pcx = tuple(x.st.pc) + F + tuple(ex.facts)
                if not solve.feasible(tuple(x.st.pc)): continue
                if x.kind != 'frame': rec.prove(f'frame request outcome {x.kind} never happens', FALSE, pcx); continue
                requests(rec, run, x, pcx); onframe(o, x, pcx, n)
    rec.check('some arguments are accepted', kinds & {'filter', 'pass'})
    rec.side(ex)
def intval(v): return {'count': c32(1), 'get': lambda k, i: v, 'has': TRUE, 'val': v}
def noarg(): return {'count': c32(-1), 'get': lambda k, i: Z64, 'has': FALSE, 'val': Z64}

def t_trim(rec, es, first, end):
    c = aclip('clip', es); S = c.field('numSamples'); args = {'clip': clipargs(c)}
    fq, fr = (var('first.q', 64, 0, 1 << 40), var('first.r', 64, 0, AS - 1)) if first else (Z64, Z64)
    f = add(scale(fq, AS), fr); args['first'] = intval(f) if first else noarg()
    e = var('arg.' + end, 64) if end else None
    for k in ('last', 'length'): args[k] = intval(e) if k == end else noarg()
    run = Run(mod(), 'AudioTrim', args)
    valid = slt(f, S)
    if end == 'last': valid = band(valid, sle(f, e), slt(e, S)); total = add(sub(e, f), c64(1))
    elif end == 'length': valid = band(valid, sle(c64(1), e), sle(e, sub(S, f))); total = e
    else: total = sub(S, f)
    def onframe(o, x, pc, n):
        m = sext(n, 64)
        def spec(p, i, x):
            j = add(fr, i)
            return [(slt(j, c64(AS)), sample(run, x.st, c, p, add(fq, m), j)), (sle(c64(AS), j), sample(run, x.st, c, p, add(add(fq, m), c64(1)), sub(j, c64(AS))))]
        aframe(rec, run, x, pc, n, total, c, spec)
    n = var('n', 32, 0, MAXFR)
    adrive(rec, run, valid, avi(c, numSamples=total), [((), n)], onframe, lambda o, c2, pc: rec.check('the input is passed through', c2 is c))
def t_trimargs(rec):
    """acceptance for every combination of every argument value"""
    c = aclip('clip', 2); S = c.field('numSamples'); run = Run(mod(), 'AudioTrim', {'clip': clipargs(c)}); a = run.args
    hf, hl, hn = a['first']['has'], a['last']['has'], a['length']['has']; f = ite(hf, a['first']['val'], Z64); l = a['last']['val']; k = a['length']['val']
    valid = band(sle(Z64, f), slt(f, S), bnot(band(hl, hn)), implies(hl, band(sle(f, l), slt(l, S))), implies(hn, band(sle(c64(1), k), sle(k, sub(S, f)))))
    total = ite(hl, add(sub(l, f), c64(1)), ite(hn, k, sub(S, f)))
    adrive(rec, run, valid, avi(c, numSamples=total), [], None)
def t_reverse(rec, es):
    c = aclip('clip', es); S = c.field('numSamples'); run = Run(mod(), 'AudioReverse', {'clip': clipargs(c)}); n = var('n', 32, 0, MAXFR)
    def onframe(o, x, pc, n):
        m = sext(n, 64); q = sext(c.q, 64)
        # sample S - 1 - (3072 n + i) = 3072 (q - n) + r - i
        def spec(p, i, x):
            j = sub(c.r, i)
            return [(sle(Z64, j), sample(run, x.st, c, p, sub(q, m), j)), (slt(j, Z64), sample(run, x.st, c, p, sub(sub(q, m), c64(1)), add(j, c64(AS))))]
        aframe(rec, run, x, pc, n, S, c, spec)
    adrive(rec, run, TRUE, avi(c), [((), n)], onframe)
def t_splice(rec, es, k):
    rec.bounded.add(f'AudioSplice: {k} input clips (length of the clip list is bounded; the clips are not)')
    cs = [aclip(f'clip{i}', es) for i in range(k)]
    for c in cs[1:]:
        for f in ('bitsPerSample', 'sampleType', 'channelLayout', 'sampleRate'): c.f[f] = cs[0].field(f)
    run = Run(mod(), 'AudioSplice', {'clips': clipargs(*cs)}); run.ex.loopmode['*'] = 'unroll'; S = [c.field('numSamples') for c in cs]
    if k == 1: adrive(rec, run, TRUE, avi(cs[0]), [], None, lambda o, c2, pc: rec.check('the input is passed through', c2 is cs[0])); return
    total = S[0]
    for v in S[1:]: total = add(total, v)
    valid = sle(total, c64(((1 << 31) - 1) * AS))
    # every frame number starts in exactly one clip: n = (frames before) + m
    m = var('m', 32, 0, MAXFR); ns = []; cum = Z64; cumq = c32(0)
    starts = []
    for j, c in enumerate(cs):
        ns.append(((sle(m, c.q),), add(cumq, m))); starts.append(cum); cum = add(cum, S[j]); cumq = add(cumq, add(c.q, c32(1)))
    def onframe(o, x, pc, n):
        g0 = scale(sext(n, 64), AS)
        def spec(p, i, x):
            out = []; g = add(g0, i)
            for c, s0 in zip(cs, starts):
                j = sub(g, s0); inn = band(sle(Z64, j), slt(j, c.field('numSamples')))
                # sample j of clip c: frame jf, offset jo
                jf = var(f'jf', 64, 0, MAXFR); jo = var('jo', 64, 0, AS - 1)
                out.append((band(inn, eq(j, add(scale(jf, AS), jo))), sample(run, x.st, c, p, jf, jo)))
            return out
        aframe(rec, run, x, pc, n, total, cs[0], spec)
    adrive(rec, run, valid, avi(cs[0], numSamples=total), ns, onframe)
def t_loop(rec, times):
    """clips of at least one full frame; the remainder of the first sample of a frame by the clip length is named 3072*rq + rr"""
    import term
    c = aclip('clip', 2); S = c.field('numSamples'); lim = ((1 << 31) - 1) * AS; n = var('n', 32, 0, MAXFR); first = scale(sext(n, 64), AS)
    rq = var('rem.q', 32, 0, MAXFR); rr = var('rem.r', 64, 0, AS - 1); R = big(rq, rr)
    def rem(a):
        if a is not first: raise Unsup('remainder of another value')
        return R
    ta = None if not times else optint('times', opt=False); T = var('product', 64, 1, lim)
    if times:
        tv = ta['val']; h = [slt(Z64, tv), sle(tv, c64(lim)), sle(var('s', 64, 1, lim), sdiv(c64(lim), tv))]
        rec.prove('lemma: s <= lim / t gives s * t <= lim', sle(mul(var('s', 64, 1, lim), tv), c64(lim)), h, kind='lemma')
    fm = mod(); term.REM_HOOK.append((S, rem))
    if times: term.MUL_HOOK.append((S, lambda o: T if o is ta['val'] else None))
    run = Run(fm, 'AudioLoop', {'clip': clipargs(c), 'times': ta or noarg()}, extra=[slt(R, S)]); run.ex.loopmode['*'] = 'unroll'; a = run.args['times']; t = ite(a['has'], a['val'], Z64)
    valid = band(sle(Z64, t), bor(sle(t, c64(1)), sle(t, sdiv(c64(lim), S))))
    total = c64(lim)
    def onframe(o, x, pc, n):
        def spec(p, i, x):
            j = add(R, i); jf = var('jf', 64, 0, MAXFR); jo = var('jo', 64, 0, AS - 1)
            return [(band(slt(j, S), eq(j, add(scale(jf, AS), jo))), sample(run, x.st, c, p, jf, jo)), (band(sle(S, j), eq(sub(j, S), add(scale(jf, AS), jo))), sample(run, x.st, c, p, jf, jo))]
        aframe(rec, run, x, pc, n, total, c, spec)
    try:
        if times: total = ite(eq(t, Z64), c64(lim), ite(eq(t, c64(1)), S, T))
        adrive(rec, run, valid, avi(c, numSamples=total), [((sle(c32(1), c.q),), n)], onframe, lambda o, c2, pc: rec.check('the input is passed through', c2 is c))
    finally: term.REM_HOOK.clear(); term.MUL_HOOK.clear()
def t_rate(rec, src):
    c = aclip('clip', 2); d = aclip('src', 4); A = {'clip': clipargs(c)}
    if src: A['src'] = clipargs(d)
    run = Run(mod(), 'AssumeSampleRate', A); a = run.args['samplerate']; r = sat32(a['val']); n = var('n', 32, 0, MAXFR)
    valid = bnot(a['has']) if src else band(a['has'], slt(c32(0), r))
    adrive(rec, run, valid, avi(c, sampleRate=d.field('sampleRate') if src else r), [((), n)],
           lambda o, x, pc, n: aframe(rec, run, x, pc, n, c.field('numSamples'), c, lambda p, i, x: [(TRUE, sample(run, x.st, c, p, sext(n, 64), i))]))
def floats(name, k):
    vs = [var(f'arg.{name}{j}', 64) for j in range(k)]
    def get(kind, i):
        if isc(i): return vs[i.k]
        r = vs[-1]
        for j in range(k - 2, -1, -1): r = ite(eq(i, const(j, i.w)), vs[j], r)
        return r
    return {'count': c32(k or -1), 'get': get, 'vals': vs, 'has': TRUE if k else FALSE}
def dbl(v): return fconst(v, 64)
def dcvt(op, x, a, b): return mk('cvt', b, (x,), (op, a, b))
def quantize(v, bits, es):
    """documented rounding of a container-unit value: nearest multiple of one significant step, halves away from zero, limited to the representable range"""
    ld = lambda k: dbl(2.0 ** k.k) if isc(k) else mk('fun', 64, (dbl(1.0), k), 'ldexp')
    step = ld(sub(c32(es * 8), bits)); hi = fop('fadd', 64, (ld(sub(bits, c32(1))), dbl(-1.0))); lo = fneg64(ld(sub(bits, c32(1))))
    r = mk('fun', 64, (fop('fdiv', 64, (v, step)),), 'round')
    r = ite(fcmp('olt', r, lo), lo, r); r = ite(fcmp('olt', hi, r), hi, r)
    return dcvt('fptosi', fop('fmul', 64, (r, step)), 64, es * 8)
def fneg64(x): return dbl(-fval(x)) if isc(x) else mk('fneg', 64, (x,))
def t_gain(rec, kind, k, bits=None):
    es, st = {'16': (2, 0), '32': (4, 0), 'f': (4, 1)}[kind]
    c = aclip('clip', es, st=st); g = floats('gain', k)
    if bits: c.f['bitsPerSample'] = c32(bits)
    run = Run(mod(), 'AudioGain', {'clip': clipargs(c), 'gain': g, 'overflow_error': fixed(0)}); n = var('n', 32, 0, MAXFR)
    if kind != 'f': rec.bounded.add('AudioGain integer: overflow_error=1 is searched, not proved')
    def spec(p, i, x):
        gv = g['vals'][p if k > 1 else 0]; s = sample(run, x.st, c, p, sext(n, 64), i)
        if kind == 'f': return [(TRUE, fop('fmul', 32, (s, dcvt('fptrunc', gv, 64, 32))))]
        return [(TRUE, quantize(fop('fmul', 64, (dcvt('s', s, es * 8, 64), gv)), c.field('bitsPerSample'), es))]
    adrive(rec, run, TRUE if k in (1, 2) else FALSE, avi(c), [((), n)], lambda o, x, pc, n: aframe(rec, run, x, pc, n, c.field('numSamples'), c, spec)) if k in (1, 2) else rejected(rec, run)
def rejected(rec, run):
    for o in run.outs:
        if not solve.feasible(tuple(o.st.pc)): continue
        rec.check('invalid arguments are an error', o.kind == 'error' and not o.also)
def t_blank(rec, es, st, keep, ln):
    bits = {2: 16, 4: 32}[es]; q = var('q', 32, 0, MAXFR - 2); r = var('r', 64, 0, AS - 1)
    L = optint('length') if ln == 'any' else {'count': c32(1), 'get': lambda k, i: add(big(q, r), c64(1)), 'has': TRUE, 'val': add(big(q, r), c64(1))}
    A = {'clip': noarg(), 'channels': fixed(0, 1, 3), 'bits': fixed(bits), 'sampletype': fixed(st), 'keep': fixed(keep), 'length': L, 'samplerate': optint('samplerate'), 'waveform': noarg(), 'amplitude': noarg(), 'frequency': noarg()}
    run = Run(mod(), 'BlankAudio', A); a = A['samplerate']; rate = ite(a['has'], sat32(a['val']), c32(44100)); n = var('n', 32, 0, MAXFR)
    if keep: rec.bounded.add('BlankAudio keep=1: the first request of a fresh filter is proved, later ones are searched')
    total = L['val'] if ln != 'any' else ite(L['has'], L['val'], scale(sext(rate, 64), 10)); lim = c64(((1 << 31) - 1) * AS)
    valid = band(slt(c32(0), rate), slt(Z64, total))   # createAudioFilter itself refuses lengths above lim (P14)
    vi = {'numSamples': total, 'sampleRate': rate, 'bitsPerSample': c32(bits), 'sampleType': c32(st), 'bytesPerSample': c32(es), 'channelLayout': c64(11), 'numChannels': c32(3)}
    class W:
        def field(s, f): return vi[f]
    adrive(rec, run, valid, vi, [((), n)] if ln != 'any' else [], lambda o, x, pc, n: aframe(rec, run, x, pc, n, total, W(), lambda p, i, x: [(TRUE, const(0, 8 * es))]))
def lclip(name, es, st, layout, first=None):
    c = aclip(name, es, bin(layout).count('1'), st); c.f['channelLayout'] = c64(layout)
    if first is not None:
        for f in ('bitsPerSample', 'sampleRate'): c.f[f] = first.field(f)
    return c
def position(layout, ch): return bin(layout & ((1 << ch) - 1)).count('1')
class Fmt:
    def __init__(s, c, layout, total): s.c = c; s.o = {'channelLayout': c64(layout), 'numChannels': c32(bin(layout).count('1')), 'numSamples': total}
    def field(s, f): return s.o[f] if f in s.o else s.c.field(f)
def avi2(w): return {f: w.field(f) for f in AI.values() if f != 'numFrames'}
def ranks(cs, flip):
    for j, c in enumerate(cs): c.h.info['rank'] = -j + 100 if flip else j
def t_mix(rec, kind, layouts, outs, nw=None, flip=0):
    es, st = {'16': (2, 0), '32': (4, 0), 'f': (4, 1)}[kind]; cs = []
    for j, l in enumerate(layouts): cs.append(lclip(f'clip{j}', es, st, l, cs[0] if cs else None))
    for c in cs[1:]: c.f['numSamples'] = cs[0].field('numSamples'); c.f['numFrames'] = cs[0].field('numFrames')
    ranks(cs, flip)
    rec.bounded.add('AudioMix: lists of clips and channels of the listed shapes (clip contents, lengths, weights and sample depths are not bounded); overflow_error=1 is searched')
    src = [(c, j) for c in cs for j in range(c.field('numChannels').k)]; m = floats('matrix', nw or len(src) * len(outs)); n = var('n', 32, 0, MAXFR)
    run = Run(mod(), 'AudioMix', {'clips': clipargs(*cs), 'matrix': m, 'channels_out': fixed(*outs), 'overflow_error': fixed(0)})
    good = len(set(outs)) == len(outs) and all(0 <= o < 64 for o in outs) and nw is None
    if not good: return rejected(rec, run)
    layout = sum(1 << o for o in outs); w = Fmt(cs[0], layout, cs[0].field('numSamples')); order = {position(layout, o): k for k, o in enumerate(outs)}
    def spec(p, i, x):
        acc = dbl(0.0)
        for q, (c, j) in enumerate(src):
            s = sample(run, x.st, c, j, sext(n, 64), i); s = dcvt('fpext', s, 32, 64) if kind == 'f' else dcvt('s', s, es * 8, 64)
            acc = fop('fadd', 64, (acc, fop('fmul', 64, (s, m['vals'][order[p] * len(src) + q]))))
        return [(TRUE, dcvt('fptrunc', acc, 64, 32) if kind == 'f' else quantize(acc, cs[0].field('bitsPerSample'), es))]
    adrive(rec, run, TRUE, avi2(w), [((), n)], lambda o, x, pc, n: aframe(rec, run, x, pc, n, w.field('numSamples'), w, spec))
def t_shuffle(rec, es, layouts, ins, outs, flip=0):
    rec.bounded.add('ShuffleChannels: lists of clips and channels of the listed shapes (clip contents, lengths and sample depths are not bounded)')
    cs = []
    for j, l in enumerate(layouts): cs.append(lclip(f'clip{j}', es, None, l, cs[0] if cs else None))
    ranks(cs, flip); run = Run(mod(), 'ShuffleChannels', {'clips': clipargs(*cs), 'channels_in': fixed(*[x & (1 << 64) - 1 for x in ins]), 'channels_out': fixed(*[x & (1 << 64) - 1 for x in outs])}); n = var('n', 32, 0, MAXFR)
    good = len(ins) == len(outs) and len(cs) <= len(ins) and len(set(outs)) == len(outs) and all(0 <= o < 64 for o in outs); pick = {}
    for k, (a, o) in enumerate(zip(ins, outs)):
        c = cs[min(k, len(cs) - 1)]; l = layouts[min(k, len(cs) - 1)]
        idx = -a - 1 if a < 0 else position(l, a)
        if a < 0 and idx >= bin(l).count('1') or a > 0 and not l >> a & 1: good = False
        pick[o] = (c, idx)
    if not good: return rejected(rec, run)
    total = cs[0].field('numSamples')
    for c in cs[1:]: total = smax(total, c.field('numSamples'))
    layout = sum(1 << o for o in outs); w = Fmt(cs[0], layout, total); by = [pick[o] for o in sorted(outs)]
    def spec(p, i, x):
        c, idx = by[p]; inn = slt(add(scale(sext(n, 64), AS), i), c.field('numSamples'))
        return [(inn, sample(run, x.st, c, idx, sext(n, 64), i)), (bnot(inn), const(0, 8 * es))]
    adrive(rec, run, TRUE, avi2(w), [((), n)], lambda o, x, pc, n: aframe(rec, run, x, pc, n, total, w, spec))
def tasks(tier):
    T = []
    for es in (2, 4):
        for first in (0, 1):
            for end in ('', 'last', 'length'):
                if first or end: T.append(('p02', 't_trim', f'AudioTrim {es * 8} {"first " if first else ""}{end}', dict(es=es, first=first, end=end)))
        T.append(('p02', 't_reverse', f'AudioReverse {es * 8}', dict(es=es)))
    for k in (1, 2, 3) if tier == 'thorough' else (1, 2): T.append(('p02', 't_splice', f'AudioSplice {k} clips', dict(es=2, k=k)))
    for s in (0, 1): T.append(('p02', 't_loop', f'AudioLoop {"times" if s else "endless"}', dict(times=s)))
    for kd in ('16', '32', 'f'):
        for k in (1, 2, 3): T.append(('p02', 't_gain', f'AudioGain {kd} {k} gains', dict(kind=kd, k=k)))
    for es, st in ((2, 0), (4, 0), (4, 1)):
        for keep in (0, 1): T.append(('p02', 't_blank', f'BlankAudio {es} {st} keep={keep}', dict(es=es, st=st, keep=keep, ln='')))
    for j, (kd, ls, o, nw) in enumerate([('16', (3,), (0,), None), ('32', (3,), (1, 0), None), ('f', (3,), (3, 1), None), ('16', (1, 1), (1, 0), None), ('f', (1, 2), (0, 2), None), ('32', (3, 1), (5,), None), ('32', (1,), (2, 0, 1), None), ('16', (3,), (2, 2), None), ('16', (3,), (64,), None), ('f', (3,), (0, 1), 3), ('16', (3,), (-1,), None)]):
        for fl in range(len(ls)): T.append(('p02', 't_mix', f'AudioMix {kd} {ls} -> {o} {fl}', dict(kind=kd, layouts=ls, outs=o, nw=nw, flip=fl)))
    for es, ls, a, o in [(2, (3,), (0, 1), (1, 0)), (4, (11,), (3, 0, 1), (0, 5, 2)), (2, (1, 1), (0, 0), (0, 1)), (2, (3, 1), (-2, -1), (3, 2)), (4, (3, 5), (1, 2, 0), (9, 8, 7)), (2, (10,), (0, 3), (0, 1)), (2, (3,), (2,), (0,)), (2, (3,), (-3,), (0,)), (2, (3,), (0, 1), (4, 4)), (2, (3, 3), (0,), (0,)), (2, (3,), (0,), (0, 1)), (2, (3,), (64,), (0,)), (2, (3,), (0,), (64,)), (2, (3,), (0,), (-1,)), (2, (3,), (-65,), (0,))]:
        for fl in range(len(ls)): T.append(('p02', 't_shuffle', f'ShuffleChannels {es * 8} {ls}: {a} -> {o} {fl}', dict(es=es, layouts=ls, ins=a, outs=o, flip=fl)))
    T.append(('p02', 't_blank', 'BlankAudio arguments', dict(es=2, st=0, keep=0, ln='any')))
    for s in (0, 1): T.append(('p02', 't_rate', f'AssumeSampleRate {"src" if s else ""}', dict(src=s)))
    T.append(('p02', 't_trimargs', 'AudioTrim arguments', {}))
    return T
LIM = (2 ** 31 - 1) * AS
def rnd(v): import numpy as np; t = np.trunc(v); return np.where(np.abs(v - t) >= 0.5, t + np.sign(v), t)
def ref_int(v, bits, es):
    import numpy as np
    step = 2.0 ** (es * 8 - bits); r = rnd(v / step); l = np.clip(r, -2.0 ** (bits - 1), 2.0 ** (bits - 1) - 1); return (l * step).astype(f'<i{es}'), bool((l != r).any())
def samples(rng, st, bits, n):
    import numpy as np
    es = 2 if bits <= 16 else 4
    if st: return np.where(rng.random(n) < 0.02, 0, rng.normal(size=n)).astype(np.float32)
    v = rng.integers(-2 ** (bits - 1), 2 ** (bits - 1), n); k = rng.random(n); v = np.where(k < 0.03, 2 ** (bits - 1) - 1, np.where(k < 0.06, -2 ** (bits - 1), v)); return (v << (es * 8 - bits)).astype(f'<i{es}')
def clipof(core, rng, x, n, layout=None, st=None, bits=None, rate=None):
    st = x['st'] if st is None else st; bits = x['bits'] if bits is None else bits; layout = x['layout'] if layout is None else layout
    ch = [samples(rng, st, bits, n) for _ in range(bin(layout).count('1'))]
    return core.asource(core.aformat(st, bits, layout), rate or x.get('rate', 48000), ch), ch
def layout_channels(l): return [b for b in range(64) if l >> b & 1]
def run_case(x):
    import vs, numpy as np
    rng = np.random.default_rng(x['seed']); core = run_case.core = getattr(run_case, 'core', None) or vs.Core(); op = x['op']; ns = x['ns']; clip, chs = clipof(core, rng, x, ns[0]); lay = x['layout']; want = None; frames_bad = ()
    st, bits = x['st'], x['bits']; es = 2 if bits <= 16 else 4; rate = 48000; fmt = (st, bits, lay)
    def call(fn, **k):
        try: return core.std(fn, **k), None
        except vs.VSError as e: return None, str(e)
    ok = True
    if op == 'AudioTrim':
        a = {k: x[k] for k in ('first', 'last', 'length') if x.get(k) is not None}; f = a.get('first', 0); e = f + a['length'] if 'length' in a else a['last'] + 1 if 'last' in a else ns[0]
        ok = 0 <= f < ns[0] and not ('last' in a and 'length' in a) and f < e <= ns[0]; r, err = call(op, clip=clip, **a); want = [c[f:e] for c in chs] if ok else None
    elif op == 'AudioSplice':
        cl = [(clip, chs)] + [clipof(core, rng, x, n) for n in ns[1:]]
        if x['dup']: cl.append(cl[0])
        r, err = call(op, clips=[c for c, _ in cl]); want = [np.concatenate([c[1][i] for c in cl]) for i in range(len(chs))]
    elif op == 'AudioLoop':
        t = x['times']; r, err = call(op, clip=clip, times=t); ok = t is None or 0 <= t and t * ns[0] <= LIM
        if ok and not t or ok and t * ns[0] > 400000:
            if r is None: return f'{op}: rejected {err}'
            total = t * ns[0] if t else LIM
            if r.ai.numSamples != total or r.ai.numFrames != -(-total // AS): return f'{op}: {r.ai.numSamples} samples'
            for n in [0, 1, 2, int(rng.integers(0, r.ai.numFrames)), r.ai.numFrames - 1]:
                if n >= r.ai.numFrames: continue
                fr = r.frame(n).planes(); i = (np.arange(min(AS, total - n * AS)) + n * AS) % ns[0]
                for k, c in enumerate(chs):
                    if len(fr[k]) != len(i) or fr[k].tobytes() != c[i].tobytes(): return f'{op}: frame {n} channel {k} differs'
            return None
        want = [np.tile(c, t) for c in chs] if ok else None
    elif op == 'AudioReverse': r, err = call(op, clip=clip); want = [c[::-1] for c in chs]
    elif op == 'AssumeSampleRate':
        if x['src']:
            o, _ = clipof(core, rng, x, 10, layout=1, rate=x['r2']); r, err = call(op, clip=clip, src=o, samplerate=x['sr']); ok = x['sr'] is None; rate = x['r2']
        else: r, err = call(op, clip=clip, samplerate=x['sr']); ok = x['sr'] is not None and x['sr'] > 0; rate = min(x['sr'] or 0, 2 ** 31 - 1)
        want = chs
    elif op == 'AudioGain':
        g = x['gain']; r, err = call(op, clip=clip, gain=g, overflow_error=x['ov']); ok = len(g) in (1, len(chs)); want = []; bad = set()
        if ok:
            for k, c in enumerate(chs):
                gv = g[k] if len(g) > 1 else g[0]
                if st: want.append(c * np.float32(gv)); continue
                w = [ref_int(c[j:j + AS].astype(float) * gv, bits, es) for j in range(0, len(c), AS)]; want.append(np.concatenate([q[0] for q in w])); bad |= {j for j, q in enumerate(w) if q[1]}
            if x['ov']: frames_bad = bad
    elif op == 'AudioMix':
        cl = [(clip, chs)]
        for l in x['more']: cl.append(clipof(core, rng, x, ns[0], layout=l) if l else cl[0])
        if x['mis']: cl[-1] = clipof(core, rng, x, ns[0] + 1) if x['mis'] == 1 else clipof(core, rng, x, ns[0], rate=44100) if x['mis'] == 2 else clipof(core, rng, x, ns[0], st=0, bits=16 if bits != 16 else 24)
        src = [c for q in cl for c in q[1]]; outs = x['outs']; nm = len(src) * len(outs) + x['extra']; m = [float(v) for v in np.round(rng.normal(size=max(nm, 1)) * x['amp'], 3)]
        ok = not (x['mis'] and len(cl) > 1) and len(m) == len(src) * len(outs) and len(set(outs)) == len(outs) and all(0 <= o < 64 for o in outs)
        r, err = call(op, clips=[c for c, _ in cl], matrix=m, channels_out=outs, overflow_error=x['ov']); bad = set()
        if ok:
            want = [None] * len(outs); fmt = (st, bits, sum(1 << o for o in outs))
            for k, o in enumerate(outs):
                acc = np.zeros(ns[0])
                for q, c in enumerate(src): acc = acc + c.astype(float) * m[k * len(src) + q]
                if st: w = acc.astype(np.float32)
                else:
                    v = [ref_int(acc[j:j + AS], bits, es) for j in range(0, len(acc), AS)]; w = np.concatenate([q[0] for q in v]); bad |= {j for j, q in enumerate(v) if q[1]}
                want[sorted(outs).index(o)] = w
            if x['ov']: frames_bad = bad
    elif op == 'ShuffleChannels':
        cl = [(clip, chs, lay)]
        for n, l in zip(ns[1:], x['more']): cl.append((*clipof(core, rng, x, n, layout=l), l))
        if x['mis'] and len(cl) > 1: cl[-1] = (*clipof(core, rng, x, ns[-1], rate=44100), lay)
        ins, outs = x['ins'], x['outs']; r, err = call(op, clips=[c[0] for c in cl], channels_in=ins, channels_out=outs); used = cl[:len(ins)]
        ok = len(ins) == len(outs) and len(cl) <= len(ins) and len(set(outs)) == len(outs) and all(0 <= o < 64 for o in outs) and not (x['mis'] and len(cl) > 1); pick = {}
        if ok:
            for k, (i, o) in enumerate(zip(ins, outs)):
                _, c, l = cl[min(k, len(cl) - 1)]; L = layout_channels(l); j = -i - 1 if i < 0 else L.index(i) if i in L else 0 if i == 0 else 99
                if not -64 <= i < 64 or j >= len(L): ok = False; break
                pick[o] = c[j]
        if ok: n = max(len(v) for v in pick.values()); want = [np.concatenate([pick[o], np.zeros(n - len(pick[o]), pick[o].dtype)]) for o in sorted(outs)]; fmt = (st, bits, sum(1 << o for o in outs))
    elif op == 'SplitChannels':
        r, err = call(op, clip=clip)
        if r is None: return f'{op}: {err}'
        rs = r if isinstance(r, list) else [r]
        if len(rs) != len(chs): return f'{op}: {len(rs)} clips'
        for k, (o, b) in enumerate(zip(rs, layout_channels(lay))):
            if o.ai.format.channelLayout != 1 << b: return f'{op}: clip {k} has layout {o.ai.format.channelLayout:#x}'
            if o.audio()[0].tobytes() != chs[k].tobytes(): return f'{op}: clip {k} differs'
        return None
    elif op == 'BlankAudio':
        a = {k: x[k] for k in ('channels', 'bits_', 'sampletype', 'samplerate', 'length', 'keep') if x.get(k) is not None}; a['bits'] = a.pop('bits_', None)
        base = dict(l=lay, b=bits, s=st, r=48000, n=ns[0]) if x['clip'] else dict(l=3, b=16, s=0, r=44100, n=None)
        r, err = call(op, clip=clip if x['clip'] else None, **a); ch = a.get('channels')
        l = base['l'] if not ch else sum(1 << c for c in ch if 0 <= c < 64); b = base['b'] if a['bits'] is None else a['bits']; s = base['s'] if 'sampletype' not in a else int(a['sampletype'] != 0); rate = a.get('samplerate', base['r']); n = a.get('length', base['n'] or rate * 10)
        ok = (not ch or len(set(ch)) == len(ch) and all(0 <= c < 64 for c in ch)) and rate > 0 and n > 0 and (b == 32 if s else 16 <= b <= 32); fmt = (s, b, l)
        if ok: want = [np.zeros(n, np.float32 if s else '<i2' if b <= 16 else '<i4') for _ in range(bin(l).count('1'))]
    if not ok: return f'{op}: invalid arguments accepted: {x}' if r is not None else None
    if r is None: return f'{op}: valid arguments rejected: {err}'
    ai = r.ai; total = len(want[0])
    if (ai.numSamples, ai.numFrames, ai.sampleRate) != (total, -(-total // AS), rate): return f'{op}: output has {ai.numSamples} samples, {ai.numFrames} frames, rate {ai.sampleRate}; expected {total} samples at {rate}'
    if (ai.format.sampleType, ai.format.bitsPerSample, ai.format.channelLayout) != fmt: return f'{op}: output format {ai.format.sampleType, ai.format.bitsPerSample, ai.format.channelLayout}, expected {fmt}'
    order = rng.permutation(ai.numFrames)[:12]
    for n in [int(v) for v in order]:
        try: fr = r.frame(n)
        except vs.VSError as e:
            if n in frames_bad: continue
            return f'{op}: frame {n} failed: {e}'
        if n in frames_bad: return f'{op}: frame {n} clips but was delivered with overflow_error'
        f = fr.afmt
        if (f.sampleType, f.bitsPerSample, f.channelLayout) != fmt: return f'{op}: frame {n} has another format'
        for k, w in enumerate(want):
            g = fr.plane(k); w = w[n * AS:(n + 1) * AS]
            if len(g) != len(w): return f'{op}: frame {n} has {len(g)} samples instead of {len(w)}'
            if g.tobytes() != np.ascontiguousarray(w).tobytes() and not (st and np.array_equal(g, w)):
                j = int(np.nonzero(g != w)[0][0]) if (g != w).any() else 0; return f'{op}: frame {n} channel {k} sample {j} is {g[j]} instead of {w[j]}'
    return None
def hunt(H):
    r = lambda a, b: int(H.rng.integers(a, b + 1)); pick = lambda *t: t[r(0, len(t) - 1)]
    LN = lambda: pick(1, 2, AS - 1, AS, AS + 1, 2 * AS - 1, 2 * AS, 2 * AS + 1, r(1, 3 * AS), r(1, 6 * AS), r(1, 300), r(1, 9000))
    LAY = lambda: pick(1, 2, 3, 3, 5, 8, 11, 63, 1 << 40 | 1 << 33 | 2, 1 << 63)
    while H.go():
        op = pick('AudioTrim', 'AudioTrim', 'AudioSplice', 'AudioSplice', 'AudioLoop', 'AudioReverse', 'AudioGain', 'AudioGain', 'AudioMix', 'AudioMix', 'ShuffleChannels', 'ShuffleChannels', 'SplitChannels', 'AssumeSampleRate', 'BlankAudio')
        st = pick(0, 0, 1); x = dict(seed=r(0, 2 ** 31), st=st, bits=32 if st else pick(16, 16, 24, 32, 20, 17, r(16, 32)), layout=LAY(), ns=[LN()])
        if op == 'AudioTrim':
            n = x['ns'][0]
            edge = lambda: pick(0, 1, AS - 1, AS, AS + 1, n - 1, n, n + 1, n - AS, r(0, n), r(0, n), r(0, n // AS) * AS)
            if r(0, 3): x['first'] = edge() if r(0, 9) else pick(-1, 2 ** 63 - 1, n + 5, -2 ** 63)
            k = r(0, 6); f = x.get('first', 0)
            if k < 5: x[pick('last', 'length')] = pick(edge(), n - 1, n - f, f, f + AS - 1, AS, 2 * AS, r(0, n)) if r(0, 9) else pick(-1, 2 ** 63 - 1, -2 ** 63, 0, 2 ** 62)
            elif k == 5: x['last'] = x['length'] = edge()
            if n <= 0 or any(abs(x.get(q) or 0) > 2 ** 63 for q in ('first', 'last', 'length')): continue
        elif op == 'AudioSplice': x['ns'] += [LN() for _ in range(pick(0, 1, 1, 2, 3, 5))]; x['dup'] = r(0, 4) == 0
        elif op == 'AudioLoop': x['times'] = pick(None, 0, 1, 2, 3, r(1, 40), r(2, 9), -1, 2 ** 62, 2 ** 63 - 1, LIM // x['ns'][0], LIM // x['ns'][0] + 1)
        elif op == 'AssumeSampleRate': x['src'] = r(0, 1); x['r2'] = r(1, 200000); x['sr'] = pick(None, None, 44100, 1, 0, -1, 2 ** 31 - 1, 2 ** 31, r(1, 10 ** 6)) if x['src'] else pick(None, 44100, 1, 0, -1, -2 ** 40, 2 ** 31 - 1, 2 ** 31, 2 ** 40, r(1, 10 ** 6))
        elif op == 'AudioGain':
            c = bin(x['layout']).count('1'); x['ov'] = r(0, 3) == 0; k = pick(1, 1, c, c, c + 1) if r(0, 5) else r(1, 4); x['gain'] = [pick(1.0, 0.5, 0.999, 2.0, -1.0, 0.0, 0.25, round(float(H.rng.normal()), 3), 1e30, 0.3) for _ in range(k)]
        elif op == 'AudioMix':
            x['more'] = [pick(0, LAY()) for _ in range(pick(0, 0, 1, 1, 2))]; x['outs'] = [pick(r(0, 63), r(0, 3)) for _ in range(pick(1, 1, 2, 3))]; x['mis'] = r(1, 3) if x['more'] and r(0, 7) == 0 else 0; x['extra'] = pick(-1, 1) if r(0, 12) == 0 else 0; x['amp'] = pick(1.0, 0.2, 0.5, 3.0); x['ov'] = r(0, 3) == 0
            if x['mis'] == 3 and st == 0 and x['bits'] == 16: x['mis'] = 1
            if r(0, 12) == 0: x['outs'].append(pick(64, -1, x['outs'][0], 2 ** 40))
        elif op == 'ShuffleChannels':
            k = pick(0, 0, 1, 1, 2); x['ns'] += [LN() for _ in range(k)]; x['more'] = [LAY() for _ in range(k)]; n = pick(1, 1, 2, 3); ls = [x['layout']] + x['more']; x['ins'] = []; x['mis'] = r(0, 11) == 0
            n = max(n, k + 1) if r(0, 11) else n
            for j in range(n): L = layout_channels(ls[min(j, k)]); x['ins'].append(pick(*L) if r(0, 1) else -1 - r(0, len(L) - 1) if r(0, 7) else pick(0, 3, -3, 64, -65, 1))
            x['outs'] = [int(v) for v in H.rng.permutation(pick(4, 8, 64))[:n]]
            if r(0, 12) == 0: x['outs'] = pick(x['outs'] + [63], [0] * n, x['outs'][:-1] + [pick(64, -1)])
        elif op == 'BlankAudio':
            x['clip'] = r(0, 1); x['keep'] = pick(None, 0, 1, 1)
            if r(0, 1): x['channels'] = pick([0], [1, 0], [5, 3, 9], [63], [0, 0], [64], [-1], [2, 1, 0])
            if r(0, 2) == 0: x['bits_'] = pick(16, 24, 32, 17, 15, 33, 0)
            if r(0, 2) == 0: x['sampletype'] = r(0, 1)
            if r(0, 2) == 0: x['samplerate'] = pick(48000, 1, 0, -1, r(1, 10 ** 5))
            if r(0, 4): x['length'] = pick(LN(), LN(), LN(), 0, -1)
        c = H.case(op, op=op, **x); e = run_case(c)
        if e: H.fail(e)
def rerun(x): return run_case(x)
