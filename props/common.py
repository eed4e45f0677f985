import sys, os
from term import *
from term import _lin_exact_s, _lin_exact_u
from exec import *
from api import *
from filt import *
import solve, build, stdlib
sys.setrecursionlimit(200000)

def run_feasible(st, ex): return FALSE not in st.pc and solve.feasible(tuple(st.pc))
def flat_events(evs):
    for e in evs:
        if e[0] == 'loop':
            for x in flat_events(e[3]): yield x
        else: yield e
def requests(rec, run, x, pc):
    """every frame fetched after the request phase was requested in it"""
    def flat(evs):
        for e in evs:
            if e[0] == 'loop' and isc(e[2]) and e[2].k <= 16 if e[0] == 'loop' and isinstance(e[2], T) else e[0] == 'loop' and isinstance(e[2], int) and e[2] <= 16:
                for j in range(e[2].k if isinstance(e[2], T) else e[2]):
                    for f in flat(e[3]): yield tuple(subst(v, {e[1]: const(j, e[1].w)}) if isinstance(v, T) else v for v in f)
            else: yield e
    evs = x.st.ev
    req = [e for e in flat(evs[:x.nreq]) if e[0] == 'req']; get = [e for e in evs if e[0] == 'get']
    for g in get:
        cands = [r for r in req if r[1] is g[1]]
        if any(r[2] is g[2] and r[3] is g[3] for r in cands): continue
        alt = [band(eq(r[2], g[2]), eq(run.api.fno(g[1], g[2], r[3]), run.api.fno(g[1], g[2], g[3]))) for r in cands]
        for l in evs[:x.nreq]:   # one request per iteration of a loop of any length: the iteration is the distance from the first request
            if l[0] != 'loop' or not isinstance(l[2], T) or isc(l[2]): continue
            for r in l[3]:
                if r[0] != 'req' or r[1] is not g[1]: continue
                t = l[1]; d = sub(g[3], subst(r[3], {t: const(0, t.w)})); j = sext(d, t.w) if d.w < t.w else trunc(d, t.w)
                alt.append(band(sle(const(0, t.w), j), slt(j, l[2]), eq(r[2], g[2]), eq(subst(r[3], {t: j}), g[3])))
        rec.prove('every fetched frame was requested', bor(*alt), pc)
c32 = lambda v: const(v, 32)
c64 = lambda v: const(v, 64)
def vclip(name, es, planes=1, cf=None, st=None, bits=None, dims=True, **f):
    """a constant-format video clip with sample size es; the other format fields are arbitrary but consistent"""
    lo, hi = {1: (8, 8), 2: (9, 16), 4: (17, 32)}[es]
    c = Clip(name, numPlanes=planes, bytesPerSample=es, **f)
    c.f.setdefault('colorFamily', c32(1) if planes == 1 else var(f'{name}.cf', 32, 2, 3) if cf is None else c32(cf))
    c.f.setdefault('bitsPerSample', c32(8) if es == 1 else var(f'{name}.bits', 32, lo, hi) if bits is None else c32(bits))
    c.f.setdefault('sampleType', c32(0) if es == 1 else var(f'{name}.st', 32, 0, 1) if st is None else c32(st))
    if planes == 1: c.f.setdefault('subSamplingW', c32(0)); c.f.setdefault('subSamplingH', c32(0))
    return c
def fmtfacts(c):
    """the format invariant the core guarantees (verified by the format property)"""
    out = []
    st, b, cf = c.field('sampleType'), c.field('bitsPerSample'), c.field('colorFamily')
    out.append(implies(eq(st, c32(1)), bor(eq(b, c32(16)), eq(b, c32(32)))))
    if not (isc(c.field('subSamplingW')) and isc(c.field('subSamplingH'))):
        out.append(implies(ne(cf, c32(3)), band(eq(c.field('subSamplingW'), c32(0)), eq(c.field('subSamplingH'), c32(0)))))
        # dimensions of a subsampled clip are multiples of the subsampling
        for d, ss in (('width', 'subSamplingW'), ('height', 'subSamplingH')):
            s_ = c.field(ss); v = c.field(d)
            out.append(eq(shl(ashr(v, s_), s_), v))
    return out
def srcpx(run, st, c, p, n, y, xx):
    """element (y, xx) of plane p of frame n (64-bit terms) of an input clip"""
    r = run.api.clip_plane(c, p, Z64); A, u = r.strides[-1]; es = r.es
    o = add(mul(n, c.F), add(mul(y, scale(A, u)), scale(xx, es)))
    sv = run.ex.curloop; run.ex.curloop = []
    v = run.ex.read_elem(st, r, o, es); run.ex.curloop = sv
    return v
def outpx(run, st, fp, p, y, xx):
    k = run.api.frame(fp)
    if k[0] == 'in': return srcpx(run, st, k[1], p, k[3], y, xx)
    r = k[1].planes[p]
    if r.init is None: r.init = lambda ex, st, r, o, n, t: uf('unwritten.' + r.name, n * 8, decomp(o, r.strides)); 
    A, u = r.strides[-1]; es = r.es
    return run.ex.read_elem(st, r, add(mul(y, scale(A, u)), scale(xx, es)), es)
def outplanes(run, fp):
    """[(width term, height term)] of the result frame, its format dict"""
    k = run.api.frame(fp)
    if k[0] == 'in':
        c = k[1]; return [(run.api.pw(c, p, Z64, 'width'), run.api.pw(c, p, Z64, 'height')) for p in range(c.field('numPlanes').k)]
    return [(r.w, r.h) for r in k[1].planes]
def pixels(rec, run, x, pc, spec, what='every pixel is the documented one', planes=None, timeout=None, split=None):
    """forall planes, rows, columns of the result frame: pixel == spec(plane, y, x)"""
    y = var('y', 64, 0, 1 << 31); xx = var('x', 64, 0, 1 << 31)
    for p, (w, h) in enumerate(outplanes(run, x.v)):
        if planes is not None and p not in planes: continue
        hy = [slt(y, zext(h, 64)), slt(xx, zext(w, 64))]
        got = outpx(run, x.st, x.v, p, y, xx)
        want = spec(p, y, xx)
        for nm, c in (split(p, y, xx) if split else [('', TRUE)]):
            if c is FALSE: continue
            rec.prove(f'{what} (plane {p}{nm})', implies(c, eq(got, want)), tuple(pc) + tuple(run.ex.facts) + tuple(hy), timeout=timeout)
def lanes_of(t, x):
    """low-order bits of the column index that the term inspects (vector lanes)"""
    m = 0
    for y in atoms(t, lambda q: q.op == 'ext' and q.a[0] is x):
        if y.k[1] == 0: m = max(m, y.k[0] + 1)
        elif y.k[1] <= 7: m = max(m, y.k[1])
    return m
def prove_lanes(rec, what, goal, hyps, x, timeout=None):
    """goal for every column: one obligation per vector lane (x = 2^m * q + j), so that each lane becomes a closed expression"""
    m = lanes_of(goal, x)
    if not m or m > 6: return rec.prove(what, goal, hyps, timeout=timeout)
    q = var('xq', 64, 0, 1 << 31)
    for j in range(1 << m):
        mp = {x: add(scale(q, 1 << m), c64(j))}; memo = {}
        if not rec.prove(f'{what}, column = {j} mod {1 << m}', subst(goal, mp, memo), tuple(subst(h, mp, memo) for h in hyps), timeout=timeout): return False
    return True
def dims(rec, run, x, pc, want):
    for p, (w, h) in enumerate(outplanes(run, x.v)):
        ww, wh = want(p)
        rec.prove(f'plane {p} has the documented dimensions', band(eq(w, ww), eq(h, wh)), tuple(pc) + tuple(run.ex.facts))
def props_from(rec, run, x, pc, c, n, changes=None):
    """frame properties are those of frame n of clip c except the listed changes: key -> (condition, kind, value) or (condition, 'del')"""
    changes = changes or {}
    k = run.api.frame(x.v); F = tuple(run.ex.facts)
    if k[0] == 'in':
        rec.prove('properties come from the documented frame', eq(n, k[3]) if k[1] is c else FALSE, tuple(pc) + F)
        for key, ch in changes.items(): rec.prove(f'{key} is changed', bnot(ch[0]), tuple(pc) + F)
        return
    log = run.api.log(x.st, k[1].props)
    if not log or log[0][0] != 'from' or log[0][1].r.info.get('clip') is None: rec.fail('properties come from the source frame', repr(log)[:300]); return
    mp = log[0][1]
    rec.prove('properties come from the documented frame', eq(mp.o, n) if mp.r.info['clip'] is c else FALSE, tuple(pc) + F)
    final = {}
    for op in log[1:]:
        if op[0] in ('set', 'del'): final[op[1]] = op
        else: rec.fail('only single properties change', repr(op)[:200])
    for key, op in final.items():
        ch = changes.get(key)
        if op[0] == 'del' and ch is None:
            rec.fail(f'property {key} is kept'); continue
        if ch is None: rec.fail(f'property {key} is not changed', repr(op)[:200]); continue
        if ch[1] == 'del': rec.prove(f'{key} is removed', ch[0] if op[0] == 'del' else FALSE, tuple(pc) + F); continue
        if op[0] != 'set' or op[2] != ch[1] or len(op[3]) != 1: rec.fail(f'{key} is set to one value'); continue
        base = run.api.prop_base(key, ch[1], mp, Z64)
        rec.prove(f'{key} has the documented value', band(implies(ch[0], eq(op[3][0], ch[2])), implies(bnot(ch[0]), eq(op[3][0], base))), tuple(pc) + F)
    for key, ch in changes.items():
        if key not in final: rec.prove(f'{key} is changed when documented', bnot(ch[0]), tuple(pc) + F)
def vi_same(c, **over):
    d = {f: c.field(f) for f in VI.values()}; d.update(over); return d
def drive(rec, run, valid, vi, onframe, cfg=(), errors=True, noframe=None):
    """creation and every frame: accepted exactly when valid; onframe(frame result, path condition, n) states the frame contract"""
    ex = run.ex; n = var('n', 32, 0, MAXFR); kinds = set(); nf = 0
    base = tuple(cfg)
    for o in run.outs:
        F = tuple(ex.facts); pc = tuple(o.st.pc) + base + F
        if not solve.feasible(tuple(o.st.pc) + base): continue
        kinds.add(o.kind)
        if o.kind == 'error':
            if valid is not None: rec.prove('arguments rejected only when invalid', bnot(valid), pc)
            rec.check('a rejected call returns no clip', not o.also); continue
        if o.kind in ('exception', 'nothing'): rec.prove(f'create outcome {o.kind} never happens', FALSE, pc); continue
        rec.reach(f'{o.kind} outcome', pc)
        if valid is not None: rec.prove('accepted arguments are valid', valid, pc)
        if o.kind == 'pass':
            rec.check('exactly one output', len(o.nodes) == 1)
            c, idx = run.api.node(o.nodes[0])
            for f, t in vi.items(): rec.prove(f'passthrough {f}', eq(c.field(f), t), pc)
            if noframe: noframe(o, c, pc)
            continue
        for f, t in vi.items(): rec.prove(f'output {f}', eq(o.vi[f], t), pc)
        for x in run.frame(o, n, extra=base):
            pcx = tuple(x.st.pc) + base
            if not solve.feasible(pcx): continue
            if x.kind == 'error' and noframe == 'errors-ok': continue
            if x.kind != 'frame': rec.prove(f'frame request outcome {x.kind} never happens', FALSE, pcx + tuple(ex.facts)); continue
            requests(rec, run, x, pcx + tuple(ex.facts)); nf += 1
            onframe(x, pcx, n)
    if valid is not FALSE: rec.check('some arguments are accepted', kinds & {'filter', 'pass'})
    if 'filter' in kinds: rec.check('some frame is produced', nf)
    rec.side(ex)
# ---- case analysis: under each case the control part of a term collapses and source reads are identified
def _isdata(t): return t.op in ('uf', 'fop') or t.op.startswith('f') or t.op == 'cvt'
def unbias(t):
    """t - 2^(w-1) when the result is simpler than t, else None"""
    K = const(1 << (t.w - 1), t.w)
    if isc(t): return add(t, K)
    if t.op == 'lin' and t.k[0] == 1 << (t.w - 1): return add(t, K)
    if t.op == 'ite':
        a = unbias(t.a[1]); b = a and unbias(t.a[2])
        return b and ite(t.a[0], a, b)
    return None
from fractions import Fraction as Fr
_pm = {}
class Poly:
    """float terms read as exact real polynomials over samples (rounding of intermediate results is not modelled)"""
    LIM = 400
    def __init__(s, d): s.d = {m: c for m, c in d.items() if c}
    def __add__(s, o):
        d = dict(s.d)
        for m, c in o.d.items(): d[m] = d.get(m, 0) + c
        return Poly(d)
    def scale(s, k): return Poly({m: c * k for m, c in s.d.items()})
    def __mul__(s, o):
        if len(s.d) * len(o.d) > Poly.LIM: return None
        d = {}
        for m, c in s.d.items():
            for n, e in o.d.items():
                k = tuple(sorted(m + n)); d[k] = d.get(k, 0) + c * e
        return Poly(d)
    def const(s): return all(not m for m in s.d) and s.d.get((), Fr(0))
    def term(s, w):
        ms = sorted(s.d.items())
        if not ms: return const(0, w)
        if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][1] == 1: return _pm[ms[0][0][0]]
        at = sorted({i for m, _ in ms for i in m}); ix = {a: k for k, a in enumerate(at)}
        return mk('fpoly', w, tuple(_pm[a] for a in at), tuple((tuple(ix[i] for i in m), c) for m, c in ms))
def patom(t): _pm[t.id] = t; return Poly({(t.id,): Fr(1)})
def fpoly(t):
    """polynomial of a float term"""
    if isc(t):
        v = fval(t)
        return Poly({(): Fr(v)}) if v == v and abs(v) != float('inf') else patom(t)
    if t.op == 'fpoly': return Poly({tuple(sorted(t.a[i].id for i in m)): c for m, c in t.k}) if all(_pm.setdefault(a.id, a) for a in t.a) else None
    if t.op == 'fneg': return fpoly(t.a[0]).scale(-1)
    if t.op == 'fadd': return fpoly(t.a[0]) + fpoly(t.a[1])
    if t.op == 'fmul': r = fpoly(t.a[0]) * fpoly(t.a[1]); return r if r is not None else patom(t)
    if t.op == 'fdiv' and isc(t.a[1]) and fval(t.a[1]): return fpoly(t.a[0]).scale(1 / Fr(fval(t.a[1])))
    if t.op == 'cvt' and isinstance(t.k, tuple) and t.k[0] in ('s', 'u'):
        r = ipoly(t.a[0], t.k[0] == 's')
        if r is not None: return r
    return patom(t)
def ipoly(t, signed):
    """polynomial equal to the mathematical value of an integer term, None when it may wrap"""
    if isc(t): return Poly({(): Fr(sgn(t.k, t.w) if signed else t.k)})
    if t.op == 'zext' and t.a[0].w > 1: return ipoly(t.a[0], False)
    if signed and t.op == 'lin' and t.k[0] == 1 << (t.w - 1) and t.k[1] == (1,): return ipoly(t.a[0], False) + Poly({(): Fr(-(1 << (t.w - 1)))})
    if t.op == 'sext' and (signed or ivs(t)[0] >= 0): return ipoly(t.a[0], True)
    if not signed and ivs(t)[0] < 0:
        if t.op == 'lin' and _lin_exact_u(t): pass
        else: return patom(mk('toreal', 32, (t,), 'u'))
    if t.op == 'lin' and (_lin_exact_s(t) or not signed):
        r = Poly({(): Fr(sgn(t.k[0], t.w))})
        for co, x in zip(t.k[1], t.a): r = r + ipoly(x, not (not signed and ivs(x)[0] < 0)).scale(sgn(co, t.w))
        return r
    if t.op == 'mul':
        lo, hi = ivs(t.a[0])
        for x in t.a[1:]: l, h = ivs(x); c = (lo * l, lo * h, hi * l, hi * h); lo, hi = min(c), max(c)
        if full(t.w)[0] <= lo and hi <= full(t.w)[1]:
            r = ipoly(t.a[0], True)
            for x in t.a[1:]:
                r = r * ipoly(x, True)
                if r is None: break
            if r is not None: return r
    return patom(mk('toreal', 32, (t,), 's' if signed else 'u'))
def rintc(x):
    """round(clamp(x, 0, C)) with C an integer constant below 65536: min(round(clamp(x, 0, 65535)), C)"""
    def cst(v): return isc(v) and v.w == 32 and fval(v) == int(fval(v))
    if x.op != 'fmin': return None
    C = [a for a in x.a if cst(a) and 0 <= fval(a) <= 65535]; R = [a for a in x.a if a not in C]
    if len(C) != 1 or len(R) != 1 or R[0].op != 'fmax': return None
    Z = [a for a in R[0].a if isc(a) and fval(a) == 0]; R = [a for a in R[0].a if a not in Z]
    if len(Z) != 1 or len(R) != 1: return None
    return umin(mk('rintc', 32, (R[0],)), const(int(fval(C[0])), 32))
def fmm(k, args):
    """numeric minimum / maximum of a set; an argument ite(c, x, neutral) takes part only under c"""
    w = args[0].w; S = {z for q in args for z in (q.a if q.op == k else (q,))}
    if w == 32:
        NI, PI_ = const(0xff800000, 32), const(0x7f800000, 32); neu, ab = (PI_, NI) if k == 'fmin' else (NI, PI_)
        if ab in S: return ab
        S.discard(neu)
        if not S: return neu
        I = [z for z in S if z.op == 'ite' and z.a[1] in (NI, PI_) and z.a[2] in (NI, PI_)]
        if len(S) == 2 and len(I) == 1:   # clamp against a conditional infinity
            o, = S - set(I); z = I[0]; return ite(z.a[0], fmm(k, (o, z.a[1])), fmm(k, (o, z.a[2])))
        for z in list(S):
            if z.op == 'ite' and z.w == 32:
                R = S - {z}
                for c, x, y in ((z.a[0], z.a[1], z.a[2]), (bnot(z.a[0]), z.a[2], z.a[1])):
                    if y is not neu and set(y.a if y.op == k else (y,)) <= R:
                        S = R | {ite(c, x, neu)}; break
    S = tuple(sorted(S, key=lambda z: z.id))
    return S[0] if len(S) == 1 else mk(k, w, S)
def optional(c, a, b):
    """ite(c, max(B + x), max(B)) as max(B + ite(c, x, -inf)), likewise for min"""
    for k, neu in (('fmax', 0xff800000), ('fmin', 0x7f800000)):
        for p, q, d in ((a, b, c), (b, a, bnot(c))):
            if p.op == k and p.w == 32:
                A = set(p.a); B = set(q.a if q.op == k else (q,))
                if B < A and len(A - B) == 1: return fmm(k, tuple(B) + (ite(d, *(A - B), const(neu, 32)),))
    return ite(c, a, b)
def unfold(r):
    """a fold or sum of a known number of steps, written out"""
    i = var(f'$i{r.k}', 64, 0, None); b = r.a[-1]; acc = r.a[0] if r.op == 'fold' else const(0, r.w)
    for j in range(r.a[-2].k):
        acc = subst(b, {i: c64(j), var(f'$a{r.k}', r.w): acc}) if r.op == 'fold' else add(acc, subst(b, {i: c64(j)}))
    return acc
class Simp:
    """rewrite a term under hypotheses: conditions over positions only are decided by the solver, reads of the same sample become one term"""
    def __init__(s, hyps, keep=None):
        s.h = [q for q in hyps if q is not TRUE]; s.memo = {}; s.reps = {}; s.keep = keep or (lambda u: True); s.data = {}; s.sv = None; s.hset = set(s.h)
    def isdata(s, t):
        r = s.data.get(t)
        if r is None:
            st = [t]
            while st:
                y = st[-1]
                if y in s.data: st.pop(); continue
                todo = [a for a in y.a if a not in s.data]
                if todo: st.extend(todo); continue
                st.pop(); s.data[y] = (y.op == 'uf' and s.keep(y)) or (y.op[0] == 'f' and y.op != 'fold') or y.op in ('cvt', 'fold', 'sum') or any(s.data[a] for a in y.a)
            r = s.data[t]
        return r
    def cond(s, c):
        if isc(c) or s.isdata(c): return c
        if s.implied(c): return TRUE
        if s.implied(bnot(c)): return FALSE
        return c
    def implied(s, c):
        if isc(c): return bool(c.k) or s.bad()
        if c in s.hset: return True
        if s.sv is None:
            s.enc = solve.BVDiv(); s.sv = solve.z3.Solver(); s.sv.set('timeout', 2000); s.nr = 0
            for q in s.h: s.sv.add(s.enc(q))
        e = s.enc(c)
        for q in s.enc.ranges[s.nr:]: s.sv.add(q)
        s.nr = len(s.enc.ranges)
        return s.sv.check(solve.z3.Not(e)) == solve.z3.unsat
    def bad(s): return False
    def __call__(s, t):
        st = [t]; m = s.memo
        while st:
            y = st[-1]
            if y in m: st.pop(); continue
            if y.op == 'ite':
                c = y.a[0]
                if c not in m: st.append(c); continue
                c = m[c]
                br = y.a[1:2] if c is TRUE else y.a[2:3] if c is FALSE else y.a[1:]
                todo = [b for b in br if b not in m]
                if todo: st.extend(todo); continue
                st.pop(); m[y] = m[br[0]] if len(br) == 1 else optional(c, m[br[0]], m[br[1]]) if OPT['fminmax'] == 'value' else ite(c, m[br[0]], m[br[1]]); continue
            todo = [a for a in y.a if a not in m]
            if todo: st.extend(todo); continue
            st.pop(); a = [m[q] for q in y.a]
            r = y if all(p is q for p, q in zip(a, y.a)) else rebuild(y, a)
            if OPT.get('freal') and r.op in ('fadd', 'fmul', 'fneg', 'fdiv', 'cvt') and r.w == 32:
                if r.op != 'cvt' or isinstance(r.k, tuple) and r.k[0] in ('s', 'u'): r = fpoly(r).term(32)
                elif r.k == 'rint': r = rintc(r.a[0]) or r
            if r.op in ('fltmin', 'fltmax') and OPT['fminmax'] == 'value':   # numeric value only: commutative, associative, idempotent
                r = fmm('f' + r.op[3:], r.a)
            if r.op == 'slt' and r.a[0].w > 1:
                u = unbias(r.a[0]); v = u and unbias(r.a[1])
                if v and not (isc(r.a[0]) and isc(r.a[1])): r = ult(u, v)
            elif r.op == 'lin' and r.k[0] == 1 << (r.w - 1) and len(r.a) == 1 and r.k[1][0] == 1 and r.a[0].op == 'ite':
                u = unbias(r.a[0]); r = u if u is not None else r
            if r.w == 1 and not isc(r): r = s.cond(r)
            if r.op == 'uf' and r.a and s.keep(r): r = s.rep(r)
            if r.op in ('fold', 'sum') and isc(r.a[-2]) and r.a[-2].k <= 64: r = s(unfold(r))
            m[y] = r
        return m[t]
    def rep(s, u):
        k = (u.k if not isinstance(u.k, tuple) else u.k[0], u.w, len(u.a)); L = s.reps.setdefault(k, [])
        for v in L:
            if v is u: return u
        for v in L:
            if all(s.implied(eq(p, q)) for p, q in zip(u.a, v.a)): return v
        L.append(u); return u
def prove_cases(rec, what, got, want, hyps, cases, keep=None, timeout=None, lazy=None):
    """got == want, one obligation per case; the cases cover everything (proved)"""
    ok = rec.prove(f'{what}: the cases are exhaustive', bor(*[c for _, c in cases]), hyps)
    for nm, c in cases:
        if c is FALSE: continue
        H = tuple(hyps) + (c,)
        if not solve.feasible(tuple(solve.relevant(list(hyps), c)) + (c,)): continue
        S = Simp(H, keep); w = S(want); g = S(got)
        ok = rec.prove(f'{what} {nm}', eq(g, w), H + tuple(lazy(g, w) if lazy else ()) + tuple({ult(u, const(65536, 32)) for t in (g, w) for u in atoms(t, lambda q: q.op == 'rintc')}), timeout=timeout) and ok
    return ok
