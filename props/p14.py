"""P14 format queries, format IDs and validity rules."""
from common import *
from direct import *
LEVEL = 'proof'
HUNT_S = {'quick': 25, 'thorough': 200}; HUNT_PARTS = 4
TASK_S = {'quick': 120, 'thorough': 600}
SUFF = {(1, 32): 'S', (1, 16): 'H'}
def fmtname(cf, st, bits, sw, sh):
    if cf == 0: return 'Undefined'
    suf = SUFF.get((st, bits)) or str(bits * (3 if cf == 2 else 1))
    if cf == 1: return 'Gray' + suf
    if cf == 2: return 'RGB' + suf
    k = {(1, 1): '420', (1, 0): '422', (0, 0): '444', (2, 2): '410', (2, 0): '411', (0, 1): '440'}.get((sw, sh))
    return f'YUV{k}P{suf}' if k else f'YUVssw{sw}ssh{sh}P{suf}'
def wf(cf, st, bits, sw, sh): return cf in (1, 2, 3) and st in (0, 1) and 8 <= bits <= 32 and (st == 0 or bits in (16, 32)) and 0 <= sw <= 4 and 0 <= sh <= 4 and (cf == 3 or sw == sh == 0)
def nby(bits): return 1 if bits <= 8 else 2 if bits <= 16 else 4
def npl(cf): return 1 if cf == 1 else 3
def gcd(a, b):
    import math
    return math.gcd(a, b)
def viok(f, x):
    cf, st, bits, by, sw, sh, n = f; num, den, w, h, nf = x
    fo = (wf(cf, st, bits, sw, sh) and by == nby(bits) and n == npl(cf)) or not any(f)
    red = den == 0 or (gcd(num, den) == 1)
    return fo and num >= 0 and den >= 0 and w >= 0 and h >= 0 and nf >= 1 and red and (w == 0) == (h == 0)
def aiok(f, rate, ns):
    st, bits, by, ch, lay = f
    return st in (0, 1) and 16 <= bits <= 32 and (st == 0 or bits == 32) and lay != 0 and by == nby(bits) and ch == bin(lay).count('1') and ns >= 1 and rate >= 1 and ns <= (2 ** 31 - 1) * 3072
def run_case(x):
    import vs, ctypes as C
    k = x['op']; v = [int(i) for i in x['v']]; c = run_case.core = getattr(run_case, 'core', None) or vs.Core(); a = c.a
    if k == 'video':
        f = vs.VideoFormat(*[77] * 7); r = a.queryVideoFormat(C.addressof(f), *v, c.p); ok = wf(*v); i = a.queryVideoFormatID(*v, c.p); buf = C.create_string_buffer(b'\xee' * 32, 32)
        if bool(r) != (ok or v[0] == 0): return f'queryVideoFormat{tuple(v)} returned {r}'
        want = (v[0], v[1], v[2], nby(v[2]), v[3], v[4], npl(v[0])) if ok else (0,) * 7
        if r and f.key() != want: return f'queryVideoFormat{tuple(v)} gave {f.key()}'
        wid = (v[0] << 28 | v[1] << 24 | v[2] << 16 | v[3] << 8 | v[4]) if ok else 0
        if i != wid: return f'queryVideoFormatID{tuple(v)} gave {i:#x}'
        if ok:
            g = vs.VideoFormat(*[5] * 7)
            if not a.getVideoFormatByID(C.addressof(g), i, c.p) or g.key() != want: return f'getVideoFormatByID({i:#x}) gave {g.key()}'
            if not a.getVideoFormatName(C.addressof(g), C.cast(buf, C.c_char_p)) or buf.value.decode() != fmtname(*v): return f'name of {tuple(v)}: {buf.value!r}'
        else:
            g = vs.VideoFormat(v[0], v[1], v[2], 1, v[3], v[4], 3)
            if v[0] and a.getVideoFormatName(C.addressof(g), C.cast(buf, C.c_char_p)): return f'name of invalid format {tuple(v)}: {buf.value!r}'
    elif k == 'id':
        i = v[0]; g = vs.VideoFormat(*[5] * 7); u = (i >> 28 & 15, i >> 24 & 15, i >> 16 & 255, i >> 8 & 255, i & 255); r = a.getVideoFormatByID(C.addressof(g), i, c.p); ok = wf(*u)
        if bool(r) != (ok or u[0] == 0): return f'getVideoFormatByID({i:#x}) returned {r}'
        if r and g.key() != ((u[0], u[1], u[2], nby(u[2]), u[3], u[4], npl(u[0])) if ok else (0,) * 7): return f'getVideoFormatByID({i:#x}) gave {g.key()}'
    elif k == 'audio':
        st, bits, lay = v; f = vs.AudioFormat(9, 9, 9, 9, 9); r = a.queryAudioFormat(C.addressof(f), st, bits, lay, c.p); ok = st in (0, 1) and 16 <= bits <= 32 and (st == 0 or bits == 32) and lay != 0
        if bool(r) != ok: return f'queryAudioFormat{tuple(v)} returned {r}'
        got = (f.sampleType, f.bitsPerSample, f.bytesPerSample, f.numChannels, f.channelLayout)
        if got != ((st, bits, nby(bits), bin(lay).count('1'), lay) if ok else (9,) * 5): return f'queryAudioFormat{tuple(v)} gave {got}'
        buf = C.create_string_buffer(64); g = vs.AudioFormat(st, bits, nby(bits), bin(lay).count('1'), lay); r = a.getAudioFormatName(C.addressof(g), C.cast(buf, C.c_char_p))
        if bool(r) != ok or ok and buf.value.decode() != f"Audio{bits}{'F' if st else ''} ({bin(lay).count('1')} CH)": return f'name of audio format {tuple(v)}: {r} {buf.value!r}'
    elif k == 'vi':
        vi = vs.VideoInfo(vs.VideoFormat(*v[:7]), v[7], v[8], v[9], v[10], v[11]); cb = vs.GETFRAME(lambda *z: None)
        p = a.createVideoFilter2(b'x', C.addressof(vi), C.cast(cb, C.c_void_p), None, 0, None, 0, None, c.p); ok = viok(v[:7], v[7:])
        if p: n = vs.Node(p, a); w = n.vi; got = list(w.format.key()) + [w.fpsNum, w.fpsDen, w.width, w.height, w.numFrames]
        if bool(p) != ok: return f'createVideoFilter2 {"accepted" if p else "rejected"} {v}'
        if p and got != v: return f'clip of {v} has {got}'
    elif k == 'ai':
        ai = vs.AudioInfo(vs.AudioFormat(*v[:5]), v[5], v[6], v[7]); cb = vs.GETFRAME(lambda *z: None)
        p = a.createAudioFilter2(b'x', C.addressof(ai), C.cast(cb, C.c_void_p), None, 0, None, 0, None, c.p); ok = aiok(v[:5], v[5], v[6])
        if p: n = vs.Node(p, a); w = n.ai; got = [w.format.sampleType, w.format.bitsPerSample, w.format.bytesPerSample, w.format.numChannels, w.format.channelLayout, w.sampleRate, w.numSamples, w.numFrames]
        if bool(p) != ok: return f'createAudioFilter2 {"accepted" if p else "rejected"} {v}'
        if p and got != v[:7] + [(v[6] + 3071) // 3072]: return f'audio clip of {v} has {got}'
def hunt(H):
    r = lambda a, b: int(H.rng.integers(a, b + 1)); pick = lambda *t: t[r(0, len(t) - 1)]
    def go(op, v):
        x = H.case(op, op=op, v=[str(i) for i in v]); e = run_case(x)
        if e: H.fail(e)
    if H.part == 0:
        for cf in range(-1, 6):
            for st in range(-1, 4):
                for bits in range(6, 35):
                    for sw in ((0, 1, -1) if cf != 3 else range(-1, 6)):
                        for sh in ((0, 1, -1) if cf != 3 else range(-1, 6)): go('video', (cf, st, bits, sw, sh))
        for st in range(-1, 4):
            for bits in range(0, 40): go('audio', (st, bits, 3)); go('audio', (st, bits, 0)); go('audio', (st, bits, (1 << 64) - 1))
        for k in range(64): go('audio', (0, 16, 1 << k)); go('audio', (1, 32, (1 << 64) - (1 << k)))
    F = [(0,) * 7]
    big = (0, 1, -1, 2 ** 31 - 1, -2 ** 31, 2 ** 32 // 2 - 8, 256, 65536 + 8, 4096)
    while H.go():
        k = r(0, 4)
        if k == 0: go('video', [pick(*big) if r(0, 4) == 0 else b for b in (r(0, 4), r(0, 2), r(5, 36), r(-1, 5), r(-1, 5))])
        elif k == 1:
            i = pick(r(0, 2 ** 32 - 1), r(0, 15) << 28 | r(0, 3) << 24 | r(6, 36) << 16 | r(0, 5) << 8 | r(0, 5))
            if i >> 24 or not i: go('id', [i])
        elif k == 2: go('audio', (pick(0, 1, 2, *big), pick(16, 24, 32, 8, *big), pick(0, 1, 3, r(0, 2 ** 62), 1 << r(0, 63))))
        elif k == 3:
            cf = r(0, 3); st = r(0, 1); bits = pick(16, 32) if st else r(8, 32); f = [cf, st, bits, nby(bits), r(0, 4) if cf == 3 else 0, r(0, 4) if cf == 3 else 0, npl(cf)] if cf else [0] * 7
            num, den = r(0, 100000), r(0, 2000)
            if r(0, 2) and num + den: g = gcd(num, den) or 1; num //= g; den //= g
            if r(0, 3) == 0: num, den = pick((0, 0), (0, 1), (1, 0), (24, 1), (2 ** 62, 1), (-1, 1), (1, -1), (-1, -1), (2 ** 63 - 1, 2 ** 63 - 2), (2, 4), (5, 0), (0, 2))
            w, h = r(1, 3000), r(1, 3000)
            if r(0, 2) == 0: w, h = pick((0, 0), (0, 1), (1, 0), (-1, 4), (4, -4), (-1, -1), (1, 1), (2 ** 31 - 1, 1))
            v = f + [num, den, w, h, pick(1, r(1, 10 ** 6), 2 ** 31 - 1, 0, -1)]
            if r(0, 2) == 0: v[r(0, 6)] = pick(r(-1, 40), r(0, 5), 8, 2 ** 31 - 1)
            if v[0] == 0 and any(v[:7]): continue
            go('vi', v)
        else:
            st = r(0, 1); bits = 32 if st else r(16, 32); lay = r(1, 2 ** 62) >> r(0, 60) or 1; v = [st, bits, nby(bits), bin(lay).count('1'), lay, r(1, 200000), pick(1, r(1, 10 ** 7), 3072, 3073, (2 ** 31 - 1) * 3072, (2 ** 31 - 1) * 3072 + 1, 0, -1), r(0, 5)]
            if r(0, 2) == 0: j = r(0, 6); v[j] = pick(r(0, 40), 0, 2 ** 31 - 1) if j == 4 else pick(r(-1, 40), 0, -1, 2 ** 31 - 1)
            go('ai', v)
def rerun(x): return run_case(x)
SRC = ('src/core/vsapi.cpp', 'src/core/vscore.cpp')
ROOTS = [r'^(queryVideoFormat|queryVideoFormatID|getVideoFormatByID|queryAudioFormat|getVideoFormatName|getAudioFormatName)\(', r'^VSCore::isValid(Video|Audio)(Info|Format)\(']
def mod(): return Fns(ROOTS, SRC, stops=(r'^VSCore::getV3VideoFormat', r'^snprintf'))
VF = [(n, 4 * i, 32) for i, n in enumerate(('colorFamily', 'sampleType', 'bitsPerSample', 'bytesPerSample', 'subSamplingW', 'subSamplingH', 'numPlanes'))]
VI = VF + [('fpsNum', 32, 64), ('fpsDen', 40, 64), ('width', 48, 32), ('height', 52, 32), ('numFrames', 56, 32)]
AF = [('sampleType', 0, 32), ('bitsPerSample', 4, 32), ('bytesPerSample', 8, 32), ('numChannels', 12, 32), ('channelLayout', 16, 64)]
AI = AF + [('sampleRate', 24, 32), ('numSamples', 32, 64), ('numFrames', 40, 32)]
UND, GRAY, RGB, YUV = 0, 1, 2, 3
def isin(x, *vs_): return bor(*[eq(x, const(v, x.w)) for v in vs_])
def between(x, a, b): return band(sle(const(a, x.w), x), sle(x, const(b, x.w)))
def wellformed(cf, st, bits, sw, sh):
    """a described format (not undefined)"""
    return band(isin(cf, GRAY, RGB, YUV), isin(st, 0, 1), between(bits, 8, 32), implies(eq(st, c32(1)), isin(bits, 16, 32)), between(sw, 0, 4), between(sh, 0, 4), implies(isin(cf, GRAY, RGB), band(eq(sw, c32(0)), eq(sh, c32(0)))))
def nbytes(bits): return ite(sle(bits, c32(8)), c32(1), ite(sle(bits, c32(16)), c32(2), c32(4)))
def fields(cf, st, bits, sw, sh): return {'colorFamily': cf, 'sampleType': st, 'bitsPerSample': bits, 'bytesPerSample': nbytes(bits), 'subSamplingW': sw, 'subSamplingH': sh, 'numPlanes': ite(eq(cf, c32(GRAY)), c32(1), c32(3))}
def bool_(v): return ne(v, const(0, v.w)) if v.w > 1 else v
CORE = lambda: P(Region('core', 'handle'))
ARGS = lambda: [var(n, 32) for n in ('colorFamily', 'sampleType', 'bitsPerSample', 'subSamplingW', 'subSamplingH')]
def finish(rec, ex, outs, excs):
    rec.check('no exception escapes', not excs); rec.check('the function returns', bool(outs)); rec.side(ex)
def filled(rec, ex, x, pc, r, F, what, want, guard):
    for n, o, w in F: rec.prove(f'{what}: {n}', implies(guard, eq(rd(ex, x, r, o, w), want[n])), pc)
def t_query(rec):
    a = ARGS(); r = struct('f', VF); ex, outs, excs = mod().run(r'^queryVideoFormat\(', [P(r), *a, CORE()], mode='unroll')
    ok = wellformed(*a)
    for x, v in outs:
        pc = tuple(x.pc) + tuple(ex.facts)
        rec.prove('accepted exactly when the format exists (or is undefined)', eqb(bool_(v), bor(ok, eq(a[0], c32(0)))), pc)
        filled(rec, ex, x, pc, r, VF, 'described format', fields(*a), ok)
        filled(rec, ex, x, pc, r, VF, 'undefined format', {n: c32(0) for n, _, _ in VF}, eq(a[0], c32(0)))
    finish(rec, ex, outs, excs)
def eqb(a, b): return band(implies(a, b), implies(b, a))
def packid(cf, st, bits, sw, sh):
    r = c32(0)
    for v, k in ((cf, 28), (st, 24), (bits, 16), (sw, 8), (sh, 0)): r = or_(r, shl(v, c32(k)))
    return r
def t_id(rec):
    a = ARGS(); ex, outs, excs = mod().run(r'^queryVideoFormatID\(', [*a, CORE()]); ok = wellformed(*a)
    for x, v in outs: rec.prove('the ID packs family, sample type, bits and subsampling of an existing format, and is 0 otherwise', eq(v, ite(ok, packid(*a), c32(0))), tuple(x.pc) + tuple(ex.facts))
    finish(rec, ex, outs, excs)
def t_byid(rec):
    i = var('id', 32); r = struct('f', VF)
    a = [and_(lshr(i, c32(28)), c32(15)), and_(lshr(i, c32(24)), c32(15)), and_(lshr(i, c32(16)), c32(255)), and_(lshr(i, c32(8)), c32(255)), and_(i, c32(255))]
    new = bor(ne(and_(i, c32(0xFF000000)), c32(0)), eq(i, c32(0)))
    ex, outs, excs = mod().run(r'^getVideoFormatByID\(', [P(r), i, CORE()], [new], mode='unroll'); ok = wellformed(*a)
    for x, v in outs:
        pc = tuple(x.pc) + tuple(ex.facts)
        rec.prove('an ID is accepted exactly when it packs an existing format (or the undefined family)', eqb(bool_(v), bor(ok, eq(a[0], c32(0)))), pc)
        filled(rec, ex, x, pc, r, VF, 'unpacked format', fields(*a), ok)
    finish(rec, ex, outs, excs)
    b = ARGS(); k = packid(*b); u = [and_(lshr(k, c32(28)), c32(15)), and_(lshr(k, c32(24)), c32(15)), and_(lshr(k, c32(16)), c32(255)), and_(lshr(k, c32(8)), c32(255)), and_(k, c32(255))]
    for n, p, q in zip(('colorFamily', 'sampleType', 'bitsPerSample', 'subSamplingW', 'subSamplingH'), u, b): rec.prove(f'unpacking a packed ID gives back {n}', implies(wellformed(*b), eq(p, q)), (), kind='lemma')
    rec.prove('a packed ID is never taken for a version 3 ID', implies(wellformed(*b), ne(and_(k, c32(0xFF000000)), c32(0))), ())
def pop64(x):
    r = None
    for i in range(64): b = zext(ext(x, i, i), 32); r = b if r is None else add(r, b)
    return r
def awell(st, bits, lay): return band(isin(st, 0, 1), between(bits, 16, 32), implies(eq(st, c32(1)), eq(bits, c32(32))), ne(lay, c64(0)))
def t_audio(rec):
    st, bits = var('sampleType', 32), var('bitsPerSample', 32); lay = var('layout', 64); r = struct('f', AF); old = dict(r.m)
    ex, outs, excs = mod().run(r'^queryAudioFormat\(', [P(r), st, bits, lay, CORE()], mode='unroll'); ok = awell(st, bits, lay)
    want = {'sampleType': st, 'bitsPerSample': bits, 'bytesPerSample': nbytes(bits), 'channelLayout': lay, 'numChannels': popc(lay)}
    for x, v in outs:
        pc = tuple(x.pc) + tuple(ex.facts)
        rec.prove('accepted exactly when the audio format exists', eqb(bool_(v), ok), pc)
        filled(rec, ex, x, pc, r, AF, 'audio format', want, ok)
        filled(rec, ex, x, pc, r, AF, 'rejected: untouched', old, bnot(ok))
    finish(rec, ex, outs, excs)
def popc(x):
    r = c64(0)
    for k in range(64): r = add(r, zext(ext(x, k, k), 64))
    return trunc(r, 32)
def member(m, rx, args):
    """static or not, the object itself is not part of the specification"""
    n = m.mod.fn(m.name(rx)).args
    return ([CORE()] if (n if isinstance(n, int) else len(n)) > len(args) else []) + args
def vfok(f):
    a = [f[n] for n in ('colorFamily', 'sampleType', 'bitsPerSample', 'subSamplingW', 'subSamplingH')]; w = fields(*a)
    return bor(band(wellformed(*a), eq(f['bytesPerSample'], w['bytesPerSample']), eq(f['numPlanes'], w['numPlanes'])), band(*[eq(f[n], c32(0)) for n, _, _ in VF]))
def afok(f): return band(awell(f['sampleType'], f['bitsPerSample'], f['channelLayout']), eq(f['bytesPerSample'], nbytes(f['bitsPerSample'])), eq(f['numChannels'], popc(f['channelLayout'])))
def t_valid(rec, fn):
    m = mod(); F = {'isValidVideoFormat': VF, 'isValidVideoInfo': VI, 'isValidAudioFormat': AF, 'isValidAudioInfo': AI}[fn]; r = struct('f', F); f = r.m
    rx = rf'^VSCore::{fn}\(VS(Video|Audio)(Format|Info) const&'
    ex, outs, excs = m.run(rx, member(m, rx, [P(r)])); Z = lambda v: const(0, v.w); pos = lambda v: slt(Z(v), v); nn = lambda v: sle(Z(v), v); odd = FALSE
    if fn == 'isValidVideoFormat': want = vfok(f); odd = band(eq(f['colorFamily'], c32(0)), bnot(vfok(f)))
    elif fn == 'isValidAudioFormat': want = afok(f)
    elif fn == 'isValidAudioInfo': want = band(afok(f), pos(f['numSamples']), pos(f['sampleRate']))
    else:
        odd = band(eq(f['colorFamily'], c32(0)), bnot(vfok(f)))
        red = band(*[eq(uf('reduce.' + n, 64, (f['fpsNum'], f['fpsDen'])), f[k]) for n, k in (('num', 'fpsNum'), ('den', 'fpsDen'))])
        want = band(vfok(f), nn(f['fpsNum']), nn(f['fpsDen']), nn(f['width']), nn(f['height']), pos(f['numFrames']), red, eqb(eq(f['width'], c32(0)), eq(f['height'], c32(0))))
    for x, v in outs: rec.prove('accepted exactly when every documented condition holds', implies(bnot(odd), eqb(bool_(v), want)), tuple(x.pc) + tuple(ex.facts))
    finish(rec, ex, outs, excs)
def tasks(tier):
    T = [('p14', f, n, {}) for f, n in (('t_query', 'queryVideoFormat'), ('t_id', 'queryVideoFormatID'), ('t_byid', 'getVideoFormatByID'), ('t_audio', 'queryAudioFormat'))]
    return T + [('p14', 't_valid', fn, dict(fn=fn)) for fn in ('isValidVideoFormat', 'isValidVideoInfo', 'isValidAudioFormat', 'isValidAudioInfo')]
