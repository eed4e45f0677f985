"""helpers of the concrete searches on the real build"""
import numpy as np, math, random
from fractions import Fraction
import vs
INT_MAX = (1 << 31) - 1
np.seterr(all="ignore")
def clamp32(v): return max(-(1 << 31), min(INT_MAX, v))
class Core:
    def __init__(s, **k): s.c = vs.Core(**k)
    def __enter__(s): return s.c
    def __exit__(s, *a): pass
def idx_source(core, cid, n, fps=(24, 1), w=16, h=4, dur=None, vary=False):
    """clip whose frame i is recognisable: 32-bit gray pixels and properties carry (cid, i)"""
    fmt = core.format(vs.GRAY, vs.INT, 32)
    cache = {}
    def get(i):
        if i not in cache:
            if len(cache) > 300: cache.clear()
            pl = np.full((h, w), cid * 1000000 + i, dtype=np.uint32); pl[0, 0] = i ^ 0x5a5a
            pr = {'cid': cid, 'idx': i, 'other': [i, i + 1]}
            if dur: pr['_DurationNum'], pr['_DurationDen'] = dur(i)
            cache[i] = core.mkframe(fmt, w, h, [pl], pr)
        return cache[i]
    return core.source(fmt, w, h, (get, n), fps=fps, vary=vary)
def frame_ident(f):
    p = f.props(); pl = f.plane(0)
    cid = p['cid'][1][0]; i = p['idx'][1][0]
    ok = int(pl[0, 0]) == (i ^ 0x5a5a) and (pl.size == 1 or int(pl[-1, -1]) == cid * 1000000 + i) and p['other'][1] == [i, i + 1]
    return cid, i, ok, p
def muldiv(num, den, a, b):
    if den == 0: return num, den
    num *= a; den *= b; g = math.gcd(num, den)
    return (num // g, den // g) if g else (num, den)
def call(core, ns, fn, **k):
    """('ok', result) or ('error', message)"""
    try: return 'ok', core.call(ns, fn, **k)
    except vs.VSError as e: return 'error', str(e)
def pick(rng, *xs): return xs[int(rng.integers(0, len(xs)))]

# ---------------------------------------------------------------- generic pixel-filter cases
LEVELS = ['none', 'sse2', 'avx2', 'avx512']
def ssof(fmt, p): return (fmt[3], fmt[4]) if p and fmt[0] == vs.YUV else (0, 0)
def nplanes(fmt): return 1 if fmt[0] == vs.GRAY else 3
def npdt(fmt): return np.dtype(np.float16 if fmt[2] == 16 else np.float32) if fmt[1] else np.dtype(np.uint8 if fmt[2] <= 8 else np.uint16 if fmt[2] <= 16 else np.uint32)
def gen_fmt(rng, cf=(1, 2, 3), bits=None, flt=(16, 32), pflt=0.2, ss=True):
    cf = pick(rng, *cf)
    if flt and rng.random() < pflt: st, b = 1, pick(rng, *flt)
    else: st, b = 0, pick(rng, *(bits or (8, 8, 8, 9, 10, 12, 16, 16, 16, 14, 32, 24)))
    sw, sh = pick(rng, (0, 0), (1, 0), (1, 1), (0, 1), (2, 2), (2, 0)) if cf == 3 and ss else (0, 0)
    return (cf, st, b, sw, sh)
def gen_dims(rng, fmt, big=0.25, mn=1):
    r = lambda a, b: int(rng.integers(a, b + 1))
    w = r(60, 300) if rng.random() < big else r(mn, 70); h = r(mn, 20) if rng.random() > 0.1 else r(mn, 70)
    m = lambda v, s: max(1, (max(v, mn) + (1 << s) - 1) >> s) << s
    return m(w, fmt[3]), m(h, fmt[4])
class Src:
    """a deterministic clip: random planes and properties derived from its seed"""
    def __init__(s, core, seed, fmt, w, h, n, fps=(24, 1), vary=False, props=None, content=None, dims=None):
        s.core = core; s.seed = seed; s.fmt = tuple(fmt); s.w = w; s.h = h; s.n = n; s.fps = tuple(fps); s.cache = {}; s.vary = vary; s.pf = props; s.content = content; s.dims = dims
        s.cfmt = core.format(*fmt); s.node = core.source(s.cfmt, w, h, (s._get, n), fps=tuple(fps), vary=vary)
    def planes(s, i): return s._data(i)[0]
    def props(s, i): return s._data(i)[1]
    def _data(s, i):
        i = int(i)
        if i not in s.cache:
            if len(s.cache) > 40: s.cache.clear()
            rng = np.random.default_rng([s.seed, i]); pls = []
            w, h = s.dims(i) if s.dims else (s.w, s.h)
            for p in range(nplanes(s.fmt)):
                sw, sh = ssof(s.fmt, p); f = s.content or vs.randplane
                pls.append(np.ascontiguousarray(f(rng, s.fmt[1], s.fmt[2], h >> sh, w >> sw, p > 0 and s.fmt[0] == vs.YUV)))
            pr = {'src': s.seed & 0xffff, 'idx': i, 'arr': [1, 2, i], 'fl': 1.5 + i, 'txt': b'a\0b'}
            if s.pf: pr.update(s.pf(rng, i))
            fr = s.core.mkframe(s.cfmt, w, h, None, pr)
            for p, pl in enumerate(pls):
                st = fr.stride(p); hh = pl.shape[0]
                import ctypes
                buf = np.frombuffer((ctypes.c_uint8 * (st * hh)).from_address(fr.a.getWritePtr(fr.p, p)), np.uint8).reshape(hh, st)
                buf[:, pl.shape[1] * pl.itemsize:] = rng.integers(0, 256, (hh, st - pl.shape[1] * pl.itemsize), dtype=np.uint8)   # padding is arbitrary
                fr.plane(p, True)[...] = pl
            s.cache[i] = (pls, pr, fr)
        return s.cache[i]
    def _get(s, i): return s._data(i)[2]
    def intact(s):
        for i, (pls, pr, fr) in s.cache.items():
            for p, pl in enumerate(pls):
                if not bits_equal(fr.plane(p), pl): return f'input frame {i} plane {p} was modified'
            if norm(fr.props()) != norm_in(pr): return f'properties of input frame {i} were modified'
        return None
def norm(p): return {k: [x[0] if isinstance(x, tuple) else x for x in v[1]] for k, v in p.items()}
def norm_in(p): return {k: [x.encode() if isinstance(x, str) else x for x in (v if isinstance(v, (list, tuple)) else [v])] for k, v in p.items()}
def bits_equal(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a.view(np.dtype(f'u{a.itemsize}')), b.view(np.dtype(f'u{b.itemsize}')))
def diff(got, want, tol=None):
    if got.shape != want.shape: return f'size {got.shape} instead of {want.shape}'
    if got.dtype != want.dtype: return f'sample type {got.dtype} instead of {want.dtype}'
    if tol is None: bad = got.view(np.dtype(f'u{got.itemsize}')) != want.view(np.dtype(f'u{want.itemsize}'))
    else:
        with np.errstate(all='ignore'):
            t = tol(want) if callable(tol) else tol
            bad = ~((np.abs(got.astype(np.float64) - want.astype(np.float64)) <= t) | (got == want) | (np.isnan(got) & np.isnan(want)))
    if not bad.any(): return None
    y, x = (int(v) for v in np.argwhere(bad)[0])
    return f'pixel (row {y}, column {x}) is {got[y, x]!r} instead of {want[y, x]!r} ({int(bad.sum())} of {bad.size} differ)'
_cores = {}
def thecore(level=None, threads=2):
    if threads not in _cores: _cores[threads] = vs.Core(threads=threads); _cores[threads].n = 0
    c = _cores[threads]
    if level is not None: c.set_level(level)
    return c
def expect(s, **k):
    """expected output clip with the shape of source s unless overridden"""
    d = dict(n=s.n, w=s.w, h=s.h, fmt=s.fmt, fps=s.fps, planes=s.planes, props=s.props); d.update(k); return d
def check_clip(nd, e, frames, S, what=''):
    vi = nd.vi; f = vi.format; key = (f.colorFamily, f.sampleType, f.bitsPerSample, f.subSamplingW, f.subSamplingH)
    for nm, got, want in (('frames', vi.numFrames, e['n']), ('width', vi.width, e['w']), ('height', vi.height, e['h']), ('format', key, tuple(e['fmt'])), ('rate', (vi.fpsNum, vi.fpsDen), tuple(e['fps']))):
        if got != want and want is not None and not (isinstance(want, tuple) and None in want): return f'{what}output {nm} is {got} instead of {want}'
    for n in frames:
        n = int(n)
        if n >= e['n']: n %= e['n']
        w = e['planes'](n)
        try: fr = nd.frame(n)
        except vs.VSError as ex:
            if isinstance(w, str) and w == 'error': continue
            return f'{what}frame {n}: {ex}'
        if isinstance(w, str): return f'{what}frame {n} was produced although it is an error'
        if w is not None:
            if fr.fmt.numPlanes != len(w): return f'{what}frame {n} has {fr.fmt.numPlanes} planes'
            for p, pl in enumerate(w):
                if pl is None: continue
                m = diff(fr.plane(p), pl, e['tola'](n, p) if e.get('tola') else e.get('tol'))
                if m: return f'{what}frame {n} plane {p}: {m}'
        pr = e['props'](n) if e['props'] else None
        if pr is not None:
            g = norm(fr.props()); x = norm_in(pr)
            for k in sorted(set(g) | set(x)):
                if k in e.get('ignore', ()): continue
                a, b = g.get(k), x.get(k)
                if a != b and not (e.get('ptol') and a and b and len(a) == len(b) and all(isinstance(u, float) and abs(u - v) <= e['ptol'] * max(1, abs(v)) for u, v in zip(a, b))): return f'{what}frame {n}: property {k} is {a} instead of {b}'
    return None
def filter_case(x, oracle, ns='std', clipkey='clip', outkey='clip', srckw=None, listclips=False):
    """x: srcs=[(seed, fmt, w, h, n, fps, vary)], args, level, fn, frames -> None or what is wrong"""
    core = thecore(x.get('level'))
    S = [Src(core, *[tuple(v) if isinstance(v, list) else v for v in q], **(srckw(x) if srckw else {})) for q in x['srcs']]
    e = oracle(x, S)
    args = {k: v for k, v in x['args'].items()}
    if callable(clipkey): args.update(clipkey(x, S))
    elif listclips: args[clipkey] = [q.node for q in S]
    else: args[clipkey] = S[0].node
    st, r = call(core, ns, x['fn'], **args)
    if e is None: return None
    if isinstance(e, str): return None if st == 'error' else 'invalid arguments were accepted'
    if st == 'error': return f'valid arguments were rejected: {r}'
    outs = e if isinstance(e, list) else [e]; nds = r[outkey][1]
    if len(nds) != len(outs): return f'{len(nds)} outputs instead of {len(outs)}'
    for i, (nd, o) in enumerate(zip(nds, outs)):
        w = check_clip(nd, o, x['frames'], S, f'output {i}: ' if len(outs) > 1 else '')
        if w: return w
    for q in S:
        w = q.intact()
        if w: return w
    core.n += 1
    if core.n % 400 == 0: del core._cb[:]; _cores.clear()
    return None
def hunt_cases(H, gen, run, fixed=()):
    for x in fixed if H.part == 0 else ():
        H.case(x['fn'], **{k: v for k, v in x.items() if k != 'fn'}); w = run(x)
        if w: H.fail(w)
    while H.go():
        x = gen(H.rng)
        H.case(x['fn'], **{k: v for k, v in x.items() if k != 'fn'}); w = run(x)
        if w: H.fail(w)
def case_of(x): return dict({k: v for k, v in x.items() if k not in ('kind', 'what', 'trace')}, fn=x['kind'])
