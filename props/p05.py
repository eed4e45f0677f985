"""P05 merging and difference filters: Merge, MaskedMerge, PreMultiply, MakeDiff, MergeDiff, MakeFullDiff, MergeFullDiff."""
from common import *
from p03 import sub_of, sh, X64
LEVEL = 'proof'
K = 'src/core/kernel/'
SRC = ('src/core/mergefilters.cpp', K + 'merge.cpp', K + 'x86/merge_sse2.cpp', (K + 'x86/merge_avx2.cpp', 'x86-64-v3'), (K + 'x86/merge_avx512.cpp', 'x86-64-v4'))
INIT = r'^mergeInitialize\('
HUNT_S = {'quick': 25, 'thorough': 300}; HUNT_PARTS = 4
TASK_S = {'quick': 200, 'thorough': 1500}
def mod(): return FilterMod(SRC, INIT)

def levels(): return (('none', 0), ('sse2', 1), ('avx2', 2), ('avx512', 3))
def two(es, planes, bits, st=0, ss=None, extra=0):
    kw = dict(subSamplingW=c32(ss[0]), subSamplingH=c32(ss[1])) if ss else {}
    a = vclip('a', es, planes, st=st, bits=bits, **kw)
    b = vclip('b', es, planes, st=st, bits=bits, **{f: a.field(f) for f in ('colorFamily', 'subSamplingW', 'subSamplingH', 'width', 'height')})
    return a, b
def spx(run, x, c, p, n, y, xx, bits=None):
    """source sample and the fact that it fits the bit depth"""
    return srcpx(run, x.st, c, p, X64(n if c.name == 'a' else clampn(c, n)), y, xx)
def clampn(c, n): return ite(slt(n, c.field('numFrames')), n, sub(c.field('numFrames'), c32(1)))
def clampv(v, hi): return ite(slt(v, c32(0)), c32(0), ite(slt(c32(hi), v), c32(hi), v))
def t_diff(rec, fn, es, planes, bits, cpu, proc=None):
    a, b = two(es, planes, bits); cfg = fmtfacts(a)
    args = {'clipa': clipargs(a), 'clipb': clipargs(b), 'planes': fixed(*proc) if proc else fixed()}
    run = Run(mod(), fn, args, extra=cfg, cpu=cpu)
    half, mx = 1 << (bits - 1), (1 << bits) - 1
    def onframe(x, pc, n):
        dims(rec, run, x, pc, lambda p: (sh(a.field('width'), sub_of(a, p, 'w')), sh(a.field('height'), sub_of(a, p, 'h'))))
        def spec(p, y, xx):
            u = spx(run, x, a, p, n, y, xx); v = spx(run, x, b, p, n, y, xx)
            if proc and p not in proc: return u
            u, v = zext(u, 32), zext(v, 32)
            return trunc(clampv(add(sub(u, v), c32(half)) if fn == 'MakeDiff' else sub(add(u, v), c32(half)), mx), 8 * es)
        pix(rec, run, x, pc, spec, [a, b], n, bits)
        props_from(rec, run, x, pc, a, X64(n))
    drive(rec, run, TRUE, vi_same(a), onframe, cfg)
def fc(pat): return const(pat, 32)
F1, F0, FH = fc(0x3f800000), fc(0), fc(0x3f000000)
def cvt(op, x, w): return (cvtfold(x, op, x.w, w) if isc(x) else None) or mk('cvt', w, (x,), (op, x.w, w))
def half2f(v): return mk('cvt', 32, (v,), 'fromhalf')
def f2half(v, cpu): return mk('cvt', 16, (v,), 'half' if cpu >= 2 else 'half.sw')
def t_fulldiff(rec, fn, es, planes, bits, cpu):
    a, b = two(es, planes, bits); ob = bits + 1; oes = 2 if ob <= 16 else 4; cfg = fmtfacts(a)
    if fn == 'MergeFullDiff': b = vclip('b', oes, planes, st=0, bits=ob, **{f: a.field(f) for f in ('colorFamily', 'subSamplingW', 'subSamplingH', 'width', 'height')})
    run = Run(mod(), fn, {'clipa': clipargs(a), 'clipb': clipargs(b)}, extra=cfg, cpu=cpu)
    mx = (1 << bits) - 1; w = 8 * (oes if fn == 'MakeFullDiff' else es)
    def onframe(x, pc, n):
        def spec(p, y, xx):
            u, v = [zext(spx(run, x, c, p, n, y, xx), 32) for c in (a, b)]
            return trunc(add(sub(u, v), c32(mx + 1)) if fn == 'MakeFullDiff' else clampv(sub(add(u, v), c32(mx + 1)), mx), w)
        dims(rec, run, x, pc, lambda p: (sh(a.field('width'), sub_of(a, p, 'w')), sh(a.field('height'), sub_of(a, p, 'h'))))
        pix(rec, run, x, pc, spec, [(a, bits), (b, bits if fn == 'MakeFullDiff' else ob)], n, bits)
        props_from(rec, run, x, pc, a, X64(n))
    drive(rec, run, TRUE, vi_same(a, bitsPerSample=c32(ob), bytesPerSample=c32(oes)) if fn == 'MakeFullDiff' else vi_same(a), onframe, cfg)
def t_merge(rec, es, planes, bits, st, cpu, k):
    a, b = two(es, planes, bits, st); cfg = fmtfacts(a)
    fs = [var(f'weight{i}', 64) for i in range(k)]
    arg = {'count': c32(k or -1), 'get': lambda kd, i: fs[i.k] if isc(i) and i.k < k else c64(0), 'has': TRUE if k else FALSE}
    run = Run(mod(), 'Merge', {'clipa': clipargs(a), 'clipb': clipargs(b), 'weight': arg}, extra=cfg, cpu=cpu)
    fw = [cvt('fptrunc', f, 32) for f in fs] or [FH]
    fw = (fw + [fw[-1]] * 3)[:3]
    ok = lambda f: band(fcmp('oge', f, F0), fcmp('ole', f, F1))
    valid = band(*[ok(f) for f in (fw if k else [])]) if k <= planes else FALSE
    W = [umin(cvt('fptoui', fop('fadd', 32, (fop('fmul', 32, (f, fc(0x47000000))), FH)), 32), c32(32767)) if k else c32(16384) for f in fw]
    def onframe(x, pc, n):
        def spec(p, y, xx):
            u, v = [spx(run, x, c, p, n, y, xx) for c in (a, b)]
            if st == 0:
                z = 32; U, V_ = zext(u, z), zext(v, z)
                r = trunc(add(U, ashr(add(mul(sub(V_, U), W[p]), c32(16384)), c32(15))), 8 * es) if es == 1 else trunc(add(zext(u, 64), ashr(add(mul(sub(zext(v, 64), zext(u, 64)), zext(W[p], 64)), c64(16384)), c64(15))), 16)
                z_, one = eq(W[p], c32(0)), fcmp('oeq', fw[p], F1)
            else:
                U, V_ = (half2f(u), half2f(v)) if es == 2 else (u, v)
                r = fop('fadd', 32, (U, fop('fmul', 32, (fop('fsub', 32, (V_, U)), fw[p]))))
                if cpu == 1 and es == 4: r = fop('fadd', 32, (fop('fmul', 32, (fop('fsub', 32, (F1, fw[p])), U)), fop('fmul', 32, (fw[p], V_))))   # the SSE2 kernel weights both samples
                if es == 2: r = f2half(r, cpu)
                z_, one = fcmp('oeq', fw[p], F0), fcmp('oeq', fw[p], F1)
            return ite(z_, u, ite(one, v, r)) if k else r
        pix(rec, run, x, pc, spec, [a, b], n, bits)
        props_from(rec, run, x, pc, a, X64(n))
    drive(rec, run, valid, vi_same(a), onframe, cfg)
def premul(u, al, o, mx, w=64):
    """sign(u - o) * round(|u - o| * al / mx)"""
    d = sub(u, o); n_ = slt(d, const(0, w)); m = ite(n_, neg(d), d)
    q = udiv(add(mul(m, al), const(mx // 2, w)), const(mx, w))
    return ite(n_, neg(q), q)
def rangeoff(run, c, mp, bits, cf):
    """luma offset of the frame whose properties are mp"""
    v = run.api.prop_base('_Range', 'int', mp, Z64); has = band(slt(c32(0), run.api.prop_base('_Range', 'count', mp)), eq(run.api.prop_base('_Range', 'type', mp), c32(1)))
    return ite(ite(has, eq(v, Z64), TRUE if cf in (1, 3) else FALSE), c64(16 << (bits - 8)), c64(0))
def fclamp(m, cpu=0):
    if cpu: m = ite(fcmp('olt', F0, m), m, F0); return ite(fcmp('olt', m, F1), m, F1)   # max(m, 0) then min(m, 1) as the vector instructions define them
    return ite(fcmp('olt', m, F0), F0, ite(fcmp('ogt', m, F1), F1, m))
def t_mask(rec, es, cf, bits, st, cpu, pre, single=False, proc=None):
    planes = 1 if cf == 1 else 3; Z = 32 if es == 1 else 64
    a, b = two(es, planes, bits, st, ss=(0, 0) if planes == 3 else None); a.f['colorFamily'] = b.f['colorFamily'] = c32(cf); cfg = fmtfacts(a)
    m = vclip('m', es, 1 if single else planes, st=st, bits=bits, **{f: a.field(f) for f in (('width', 'height') if single else ('colorFamily', 'subSamplingW', 'subSamplingH', 'width', 'height'))})
    run = Run(mod(), 'MaskedMerge', {'clipa': clipargs(a), 'clipb': clipargs(b), 'mask': clipargs(m), 'planes': fixed(*proc) if proc else fixed(), 'first_plane': fixed(), 'premultiplied': fixed(1) if pre else fixed()}, extra=cfg, cpu=cpu)
    mx = (1 << bits) - 1
    def onframe(x, pc, n):
        k_ = run.api.frame(x.v); mp = run.api.log(x.st, k_[1].props)[0][1]
        def spec(p, y, xx):
            u, v = [spx(run, x, c, p, n, y, xx) for c in (a, b)]; k = spx(run, x, m, 0 if single else p, n, y, xx)
            if proc and p not in proc: return u
            if st:
                if es == 2: u, v, k = half2f(u), half2f(v), half2f(k)
                vec = es == 4 and cpu or cpu >= 2; k0 = k; k = fclamp(k, vec)
                om = fop('fsub', 32, (F1, k)) if vec else ite(fcmp('olt', k0, F0), F1, fop('fsub', 32, (F1, ite(fcmp('ogt', k0, F1), F1, k0))))
                r = fop('fadd', 32, (fop('fmul', 32, (om, u)), v)) if pre else fop('fadd', 32, (u, fop('fmul', 32, (fop('fsub', 32, (v, u)), k))))
                return f2half(r, cpu) if es == 2 else r
            u, v, k = zext(u, Z), zext(v, Z), zext(k, Z); C = lambda q: const(q, Z)
            if not pre and cpu:
                # 16-bit lanes for bytes, 32-bit lanes for words; the lemma 'lane' shows the sum does not wrap
                L = 16 if es == 1 else 32; t_ = lambda q: trunc(q, L)
                k16 = zext(trunc(sub(C(mx), k), 8 * es), L) if es == 2 else sub(const(mx, L), t_(k))
                sm = add(add(mul(k16, t_(u)), mul(t_(k), t_(v))), const(mx // 2, L)); run.lemmas.append(ult(sm, const(mx * mx + mx // 2 + 1, L)))
                return trunc(udiv(sm, const(mx, L)), 8 * es)
            if not pre: return trunc(udiv(add(add(mul(sub(C(mx), k), u), mul(k, v)), C(mx // 2)), C(mx)), 8 * es)
            o = C(1 << (bits - 1)) if p and cf == 3 else trunc(rangeoff(run, a, mp, bits, cf), Z)
            r = add(premul(u, sub(C(mx), k), o, mx, Z), v)
            return trunc(ite(slt(r, C(0)), C(0), ite(slt(C(mx), r), C(mx), r)), 8 * es)
        pix(rec, run, x, pc, spec, [a, b, (m, bits, 0) if single else m], n, bits)
        props_from(rec, run, x, pc, a, X64(n))
    if not pre and cpu and not st:
        w = bits; u, v, k = [zext(var(q, w), 2 * w + 2) for q in 'uvk']; M = const(mx, 2 * w + 2)
        rec.prove('lemma lane: the weighted sum of two samples fits the lane', bnot(ult(const(mx * mx, 2 * w + 2), add(mul(sub(M, k), u), mul(k, v)))), kind='lemma')
    drive(rec, run, TRUE, vi_same(a), onframe, cfg, noframe='errors-ok' if pre else None)
def t_premul(rec, es, cf, bits, st, cpu):
    planes = 1 if cf == 1 else 3; Z = 32 if es == 1 else 64; mx = (1 << bits) - 1
    a = vclip('a', es, planes, st=st, bits=bits, cf=cf, **(dict(subSamplingW=c32(0), subSamplingH=c32(0)) if planes == 3 else {})); cfg = fmtfacts(a)
    m = vclip('m', es, 1, st=st, bits=bits, width=a.field('width'), height=a.field('height'))
    run = Run(mod(), 'PreMultiply', {'clip': clipargs(a), 'alpha': clipargs(m)}, extra=cfg, cpu=cpu)
    def onframe(x, pc, n):
        k_ = run.api.frame(x.v); mp = run.api.log(x.st, k_[1].props)[0][1]
        def spec(p, y, xx):
            u, k = spx(run, x, a, p, n, y, xx), spx(run, x, m, 0, n, y, xx)
            if st:
                if es == 2: return f2half(fop('fmul', 32, (half2f(u), half2f(k))), cpu)
                return fop('fmul', 32, (u, k))
            u, k = zext(u, Z), zext(k, Z)
            o = const(1 << (bits - 1), Z) if p and cf == 3 else trunc(rangeoff(run, a, mp, bits, cf), Z)
            return trunc(add(premul(u, k, o, mx, Z), o), 8 * es)
        pix(rec, run, x, pc, spec, [a, (m, bits, 0)], n, bits)
        props_from(rec, run, x, pc, a, X64(n))
    drive(rec, run, TRUE, vi_same(a), onframe, cfg)
def pix(rec, run, x, pc, spec, clips, n, bits, **k):
    """pixel contract; samples of the named clips fit the bit depth"""
    y = var('y', 64, 0, 1 << 31); xx = var('x', 64, 0, 1 << 31)
    for p, (w, h) in enumerate(outplanes(run, x.v)):
        hy = [slt(y, zext(h, 64)), slt(xx, zext(w, 64))]
        for c in clips:
            c, bt, pp = (c + (p,))[:3] if isinstance(c, tuple) else (c, bits, p)
            if bt % 8 and not (isc(c.field('sampleType')) and c.field('sampleType').k): 
                v = srcpx(run, x.st, c, pp, X64(clampn(c, n)), y, xx); hy.append(ult(v, const(1 << bt, v.w)))
        run.lemmas = []; want = spec(p, y, xx)
        prove_lanes(rec, f'every pixel is the documented one (plane {p})', eq(outpx(run, x.st, x.v, p, y, xx), want), tuple(pc) + tuple(run.ex.facts) + tuple(hy) + tuple(run.lemmas), xx)
HALF = r"""
#include <cstdio>
#include <cstring>
#include <immintrin.h>
#include <thread>
#include <vector>
#include <atomic>
#include "float16_helper.h"
#if VS_HAVE_NATIVE_FLOAT16
#error software conversion expected
#endif
__attribute__((target("f16c"))) static float hw(uint16_t h) { return _cvtsh_ss(h); }
int main() {
    for (unsigned h = 0; h < 65536; h++) {
        float a = halfToFloat((uint16_t)h), b = hw((uint16_t)h);
        if (b != b) { if (a == a) { printf("halfToFloat(%x) is not NaN\n", h); return 1; } }
        else if (memcmp(&a, &b, 4)) { printf("halfToFloat(%x)\n", h); return 1; }
    }
    std::atomic<unsigned> bad{0}, any{0}; std::vector<std::thread> th;
    for (unsigned t = 0; t < 8; t++) th.emplace_back([&, t] {
        for (uint64_t i = (uint64_t)t << 29; i < (uint64_t)(t + 1) << 29; i++) {
            uint32_t u = (uint32_t)i; float f; memcpy(&f, &u, 4); uint16_t r = floatToHalf(f); float g = halfToFloat(r); bool ok;
            if ((u & 0x7fffffff) > 0x7f800000) ok = g != g;
            else if ((u >> 31) != (r >> 15u)) ok = false;
            else {
                uint32_t m = u & 0x7fffffff; float x; memcpy(&x, &m, 4); uint16_t q = r & 0x7fff;
                if (q > 0x7c00) ok = false;
                else if (q == 0x7c00) ok = x >= 65520.0f;
                else { double v = halfToFloat(q), up = q == 0x7bff ? 65536.0 : halfToFloat(q + 1), dn = q ? halfToFloat(q - 1) : 0.0; double tol = 1.0 + 1.0 / 1024; ok = (double)x - v <= (up - v) / 2 && v - (double)x <= (q ? (v - dn) / 2 : 0.0) * tol; }
            }
            if (!ok) { any = 1; bad = u; return; }
        }
    });
    for (auto &x : th) x.join();
    if (any) { printf("floatToHalf(%x)\n", (unsigned)bad); return 1; }
    puts("ok"); return 0;
}
"""
def t_half(rec):
    """complete enumeration of both conversion functions (2^16 and 2^32 inputs)"""
    import build, subprocess, tempfile, os, shutil
    d = tempfile.mkdtemp(prefix='vh')
    try:
        open(d + '/h.cpp', 'w').write(HALF)
        r = subprocess.run(['g++', '-std=c++20', '-O3', '-pthread', '-I' + os.path.join(build.REPO, 'src/core'), d + '/h.cpp', '-o', d + '/h'], capture_output=True, text=True)
        if r.returncode: raise Unsup('half conversion harness does not compile: ' + r.stderr[-300:])
        r = subprocess.run([d + '/h'], capture_output=True, text=True, timeout=300)
        if r.returncode == 0: rec.ok('halfToFloat is exact and floatToHalf gives a nearest half for every input', by='enumeration (complete)')
        else: rec.fail('halfToFloat is exact and floatToHalf gives a nearest half for every input', r.stdout)
    finally: shutil.rmtree(d, ignore_errors=True)
def tasks(tier):
    T = []; deep = tier == 'thorough'; add_ = lambda f, n, **k: T.append(('p05', f, n, k))
    for lv, cpu in levels():
        for fn in ('MakeDiff', 'MergeDiff'):
            for es, bits in ((1, 8), (2, 16), (2, 10)) + (((2, 9), (2, 12), (2, 15)) if deep else ()):
                add_('t_diff', f'{fn} {lv} {bits} bit', fn=fn, es=es, planes=1, bits=bits, cpu=cpu)
            add_('t_diff', f'{fn} {lv} planes [2, 0]', fn=fn, es=2, planes=3, bits=16, cpu=cpu, proc=[2, 0])
        for es, bits, st in ((1, 8, 0), (2, 16, 0), (2, 10, 0), (4, 32, 1), (2, 16, 1)):
            for k in ((0, 1) if deep or st or not cpu else (0,)): add_('t_merge', f'Merge {lv} {"float" if st else "int"}{bits} {k} weights', es=es, planes=1, bits=bits, st=st, cpu=cpu, k=k)
            for pre in ((0, 1) if deep or st else (0,)): add_('t_mask', f'MaskedMerge {lv} {"float" if st else "int"}{bits} pre={pre}', es=es, cf=1, bits=bits, st=st, cpu=cpu, pre=pre)
            if deep or st or es == 1 or cpu < 3: add_('t_premul', f'PreMultiply {lv} {"float" if st else "int"}{bits}', es=es, cf=1, bits=bits, st=st, cpu=cpu)
        for k in (2, 3) if deep else (2,) if not cpu else (): add_('t_merge', f'Merge {lv} YUV {k} weights', es=1, planes=3, bits=8, st=0, cpu=cpu, k=k)
        for cf in (2, 3):
            if deep or cpu: add_('t_mask', f'MaskedMerge {lv} cf={cf} single mask', es=1, cf=cf, bits=8, st=0, cpu=cpu, pre=0, single=True)
            if deep: add_('t_mask', f'MaskedMerge {lv} cf={cf} pre planes [1]', es=1, cf=cf, bits=8, st=0, cpu=cpu, pre=1, proc=[1])
            add_('t_premul', f'PreMultiply {lv} cf={cf}', es=1, cf=cf, bits=8, st=0, cpu=cpu)
    for fn in ('MakeFullDiff', 'MergeFullDiff'):
        for es, bits in ((1, 8), (2, 9), (2, 15), (2, 16)): add_('t_fulldiff', f'{fn} {bits} bit', fn=fn, es=es, planes=1, bits=bits, cpu=2)
    add_('t_half', 'half conversions')
    for k in (2, 4): add_('t_merge', f'Merge {k} weights for one plane', es=1, planes=1, bits=8, st=0, cpu=0, k=k)
    return T

# ---------------------------------------------------------------- concrete search
def okfmt(f): return f[2] <= 16 if f[1] == 0 else True
def procplanes(a):
    p = a.get('planes')
    if p is None or len(p) == 0: return [True] * 3
    if any(v < 0 or v > 2 for v in p) or len(set(p)) != len(p): return None
    return [i in p for i in range(3)]
def weights(a, np):
    w = a.get('weight') or []
    w = w if isinstance(w, list) else [w]
    f = [np.float32(0.5)] * 3
    with np.errstate(all='ignore'): v = [np.float32(x) for x in w]
    if len(w) > 3: return None
    for i, x in enumerate(v): f[i] = x
    if len(w) == 1: f = [f[0]] * 3
    if len(w) == 2: f[2] = f[1]
    if not all(x >= 0 and x <= 1 for x in f): return None
    return f
def oracle(x, S):
    from hc import expect, nplanes
    import numpy as np
    fn = x['fn']; a = x['args']; s, t = S[0], S[1]; st, bits = s.fmt[1], s.fmt[2]; mx = (1 << bits) - 1
    f64 = lambda v: v.astype(np.float64); i64 = lambda v: v.astype(np.int64)
    C = lambda q, i: q.planes(min(i, q.n - 1))
    PR = lambda q, i: q.props(min(i, q.n - 1))
    if not okfmt(s.fmt) or any(q.vary for q in S): return 'error'
    dt = {1: np.uint8, 2: np.uint16, 4: np.uint32}
    odt = s.planes(0)[0].dtype
    eps = 2.0 ** -23 if bits == 32 else 2.0 ** -10
    same = s.fmt == t.fmt and (s.w, s.h) == (t.w, t.h)
    N = range(nplanes(s.fmt))
    def fl(f, bound):
        """float formats: f computed in double, tolerance covers any evaluation order and FMA"""
        pl = lambda i: [f(i, p).astype(odt) for p in N]
        return dict(planes=pl, tola=lambda i, p: eps * np.abs(f(i, p)) + 2.0 ** -21 * bound(i, p) + (2.0 ** -24 if bits == 16 else 0))
    if fn == 'Merge':
        w = weights(a, np)
        if w is None or not same or len(a.get('weight') or []) > nplanes(s.fmt): return 'error'
        if st == 0:
            W = [min(int(np.floor(np.float32(np.float32(v * np.float32(32768)) + np.float32(0.5)))), 32767) for v in w]
            def g(i, p):
                u, v = i64(s.planes(i)[p]), i64(C(t, i)[p])
                if W[p] == 0: return u.astype(odt)
                if w[p] == 1: return v.astype(odt)
                return (u + (((v - u) * W[p] + 16384) >> 15)).astype(odt)
            return expect(s, planes=lambda i: [g(i, p) for p in N])
        def g(i, p):
            u, v = f64(s.planes(i)[p]), f64(C(t, i)[p])
            return u if w[p] == 0 else v if w[p] == 1 else u + (v - u) * np.float64(w[p])
        d = fl(g, lambda i, p: np.abs(f64(s.planes(i)[p])) + np.abs(f64(C(t, i)[p])) if 0 < w[p] < 1 else np.zeros_like(f64(s.planes(i)[p])))
        tl = d['tola']; d['tola'] = lambda i, p: tl(i, p) if 0 < w[p] < 1 else 0.0
        return expect(s, **d)
    def off(q, i, p):
        r = PR(q, i).get('_Range'); lim = (r == 0) if r is not None else s.fmt[0] in (1, 3)
        return 16 << (bits - 8) if lim else 0
    pm = lambda v, al, o: (lambda d: np.sign(d) * ((np.abs(d) * al + mx // 2) // mx))(v - o)
    if fn in ('MaskedMerge', 'PreMultiply'):
        m = S[-1]; sub = s.fmt[3] or s.fmt[4]; pl_ = procplanes(a)
        if fn == 'PreMultiply':
            if m.fmt[0] != 1 or m.fmt[1:3] != s.fmt[1:3] or (m.w, m.h) != (s.w, s.h): return 'error'
            if sub and len(N) > 1: return None
            if st: return expect(s, **fl(lambda i, p: f64(s.planes(i)[p]) * f64(C(m, i)[0]), lambda i, p: np.abs(f64(s.planes(i)[p]) * f64(C(m, i)[0]))))
            def g(i, p):
                o = 1 << (bits - 1) if p and s.fmt[0] == 3 else off(s, i, p)
                return (pm(i64(s.planes(i)[p]), i64(C(m, i)[0]), o) + o).astype(odt)
            return expect(s, planes=lambda i: [g(i, p) for p in N])
        fp = a.get('first_plane', 0) != 0 or nplanes(m.fmt) == 1; pre = a.get('premultiplied', 0) != 0
        if not same or m.fmt[1:3] != s.fmt[1:3] or (m.w, m.h) != (s.w, s.h) or m.fmt != s.fmt and m.fmt[0] != 1 and not fp or pl_ is None: return 'error'
        if fp and sub and len(N) > 1 and (pl_[1] or pl_[2]): return None
        mk_ = lambda i, p: C(m, i)[0 if fp else p]
        def cl(q, i):
            v = PR(q, i).get('_ChromaLocation', 0); return v if 0 <= v <= 5 else 0
        def g(i, p):
            u, v, k = s.planes(i)[p], C(t, i)[p], mk_(i, p)
            if not pl_[p]: return u
            if st:
                k = np.clip(f64(k), 0, 1); return ((1 - k) * f64(u) + f64(v)) if pre else f64(u) + (f64(v) - f64(u)) * k
            u, v, k = i64(u), i64(v), i64(k)
            if not pre: return (((mx - k) * u + k * v + mx // 2) // mx).astype(odt)
            o = 1 << (bits - 1) if p and s.fmt[0] == 3 else off(s, i, p)
            return np.clip(pm(u, mx - k, o) + v, 0, mx).astype(odt)
        def planes(i):
            if (s.fmt[3] or s.fmt[4]) and (pl_[1] or pl_[2]) and cl(s, i) != cl(t, i): return 'error'
            if pre and st == 0 and any(pl_[p] for p in N) and off(s, i, 0) != off(t, i, 0): return 'error'
            return [g(i, p).astype(odt) for p in N]
        if st: return expect(s, planes=planes, tola=lambda i, p: eps * np.abs(f64(g(i, p))) + 2.0 ** -21 * (np.abs(f64(s.planes(i)[p])) + np.abs(f64(C(t, i)[p]))) + (2.0 ** -24 if bits == 16 else 0) if pl_[p] else 0.0)
        return expect(s, planes=planes)
    half = 1 << (bits - 1)
    if fn in ('MakeDiff', 'MergeDiff'):
        pl_ = procplanes(a); sg = -1 if fn == 'MakeDiff' else 1
        if not same or pl_ is None: return 'error'
        if st: 
            def g(i, p): return f64(s.planes(i)[p]) + sg * f64(C(t, i)[p]) if pl_[p] else f64(s.planes(i)[p])
            return expect(s, **fl(g, lambda i, p: 0.0))
        return expect(s, planes=lambda i: [np.clip(i64(s.planes(i)[p]) + sg * (i64(C(t, i)[p]) - half), 0, mx).astype(odt) if pl_[p] else s.planes(i)[p] for p in N])
    if fn == 'MakeFullDiff':
        if not same: return 'error'
        if st: return expect(s, **fl(lambda i, p: f64(s.planes(i)[p]) - f64(C(t, i)[p]), lambda i, p: 0.0))
        of = (s.fmt[0], 0, bits + 1) + s.fmt[3:]; od = np.uint16 if bits < 16 else np.uint32
        return expect(s, fmt=of, planes=lambda i: [(i64(s.planes(i)[p]) - i64(C(t, i)[p]) + 2 * half).astype(od) for p in N])
    if fn == 'MergeFullDiff':
        if (s.w, s.h) != (t.w, t.h) or t.fmt != (s.fmt[0], st, bits + (st == 0)) + s.fmt[3:]: return 'error'
        if st: return expect(s, **fl(lambda i, p: f64(s.planes(i)[p]) + f64(C(t, i)[p]), lambda i, p: 0.0))
        return expect(s, planes=lambda i: [np.clip(i64(s.planes(i)[p]) + i64(C(t, i)[p]) - 2 * half, 0, mx).astype(odt) for p in N])
def gen(rng):
    from hc import gen_fmt, gen_dims, pick, LEVELS
    r = lambda a, b: int(rng.integers(a, b + 1))
    fn = pick(rng, 'Merge', 'Merge', 'MaskedMerge', 'MaskedMerge', 'MaskedMerge', 'PreMultiply', 'MakeDiff', 'MergeDiff', 'MakeFullDiff', 'MergeFullDiff')
    fmt = gen_fmt(rng, bits=(8, 8, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16) if r(0, 30) else (17, 32), pflt=0.3); w, h = gen_dims(rng, fmt); a = {}
    x = dict(fn=fn, level=pick(rng, *LEVELS), frames=[r(0, 9), 0])
    n = r(1, 3); mk_ = lambda f, n_=None, w_=w, h_=h: (r(0, 1 << 30), f, w_, h_, n_ or n, pick(rng, (24, 1), (30000, 1001)), False)
    odd = lambda f: f if r(0, 40) else gen_fmt(rng, ss=f[3] == 0 and f[4] == 0 and w % 4 == 0 and h % 4 == 0)
    S = [mk_(fmt)]
    if fn != 'PreMultiply':
        f2 = odd(fmt)
        if fn == 'MergeFullDiff' and fmt[1] == 0 and r(0, 15): f2 = (fmt[0], 0, min(32, fmt[2] + 1)) + fmt[3:]
        S.append(mk_(f2, r(1, 3)))
    if fn in ('MaskedMerge', 'PreMultiply'):
        g = (1,) + fmt[1:3] + (0, 0); sub = fmt[3] or fmt[4]
        f3 = g if fn == 'PreMultiply' or (r(0, 1) and not sub) else fmt
        if r(0, 30) == 0: f3 = odd(f3) if r(0, 1) else (f3[0], 1 - f3[1], 16 if fmt[2] == 16 else 32) + f3[3:]
        S.append(mk_(f3, r(1, 3)))
    if r(0, 50) == 0: k = r(0, len(S) - 1); q = list(S[k]); q[2 + r(0, 1)] += 4; S[k] = tuple(q)
    if fn == 'Merge' and r(0, 5):
        k = r(1, 1 if fmt[0] == 1 and r(0, 20) else 3)
        wt = lambda: pick(rng, 0.0, 1.0, 0.5, float(rng.random()), float(rng.random()), 1e-5, 1 - 1e-5, 1.5e-5, 3.0e-5, 0.99999, 1 / 32768, 32767 / 32768)
        a['weight'] = [wt() for _ in range(k)]
        if r(0, 40) == 0: a['weight'][-1] = pick(rng, -1e-9, 1.0000001, float('nan'), float('inf'), -0.0, 1 + 1e-12)
        if r(0, 60) == 0: a['weight'] = [0.5] * pick(rng, 4, 5, 8, 40, 3000)
    if fn in ('MaskedMerge', 'MakeDiff', 'MergeDiff') and r(0, 1):
        a['planes'] = [i for i in rng.permutation(3).tolist() if r(0, 1)] or [0]
        if r(0, 30) == 0: a['planes'] = a['planes'] + [pick(rng, 3, -1, a['planes'][0], 1 << 32)]
    if fn == 'MaskedMerge':
        if r(0, 2) == 0: a['first_plane'] = r(0, 1)
        if r(0, 1): a['premultiplied'] = r(0, 1)
    x['srcs'] = S; x['args'] = a; return x
def srckw(x):
    one = x['srcs'][0][0] % 4
    def pf(rng, i):
        d = {}
        if one == 1: d['_Range'] = 0
        elif one == 2: d['_Range'] = 1
        elif one == 3 and rng.integers(0, 4) == 0: d['_Range'] = int(rng.integers(0, 3))
        if rng.integers(0, 12) == 0: d['_ChromaLocation'] = int(rng.integers(-1, 7))
        return d
    return dict(props=pf)
def clips(x, S):
    if x['fn'] == 'PreMultiply': return dict(clip=S[0].node, alpha=S[1].node)
    d = dict(clipa=S[0].node, clipb=S[1].node)
    if x['fn'] == 'MaskedMerge': d['mask'] = S[2].node
    return d
def run_case(x):
    from hc import filter_case
    return filter_case(x, oracle, clipkey=clips, srckw=srckw)
def hunt(H):
    from hc import hunt_cases
    hunt_cases(H, gen, run_case, ())
def rerun(x):
    from hc import case_of
    return run_case(case_of(x))
