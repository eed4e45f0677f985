"""P20 audio file output: interleaving and headers."""
import math
from common import *
from direct import *
from p14 import popc, eqb, bool_
LEVEL = 'proof'
HUNT_S = {'quick': 20, 'thorough': 200}; HUNT_PARTS = 4
TASK_S = {'quick': 120, 'thorough': 600}
W = 'src/common/wave.cpp'
ROOTS = [r'^PackChannels', r'^CreateWave']
def mod(): return Fns(ROOTS, W, nostops=True)
PACK = {'PackChannels16to16le': (2, 2), 'PackChannels32to32le': (4, 4), 'PackChannels32to24le': (4, 3)}
def t_pack(rec, fn, nch):
    es, eo = PACK[fn]; m = mod(); src = [Region(f's{c}', 'arr', es=1 if eo == 3 else es, ro=True) for c in range(nch)]
    tab = Region('src', 'obj', size=8 * nch, ro=True); tab.init = lambda ex, st, r, o, n, t: P(src[(o.k if isinstance(o, T) else o) // 8])
    dst = Region('dst', 'arr', es=1 if eo == 3 else eo); L = var('length', 64, 0, 3072)
    ex, outs, excs = m.run(rf'^{fn}\(', [P(tab), P(dst), L, c64(nch)])
    i = var('i', 64, 0, 1 << 12)
    for x, v in outs:
        pc = tuple(x.pc) + tuple(ex.facts) + (slt(i, L),)
        for c in range(nch):
            if eo == 3:
                for b in range(3):
                    g = ex.read_elem(x, dst, add(scale(i, 3 * nch), c64(3 * c + b)), 1); w = ex.read_elem(x, src[c], add(scale(i, 4), c64(1 + b)), 1)
                    rec.prove(f'byte {b} of sample i of channel {c} is at its interleaved place', FALSE if g is UNDEF else eq(g, w), pc)
            else:
                g = ex.read_elem(x, dst, add(scale(i, eo * nch), c64(eo * c)), eo); w = ex.read_elem(x, src[c], scale(i, es), es)
                rec.prove(f'sample i of channel {c} is at its interleaved place', FALSE if g is UNDEF else eq(g, w), pc)
    rec.check('the function returns', bool(outs) and not excs); rec.side(ex)
def tasks(tier):
    return [('p20', 't_pack', f'{fn} {n} channels', dict(fn=fn, nch=n)) for fn in PACK for n in ((1, 2, 6) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8))]

U = lambda *b: bytes(b)
UUID = {1: bytes.fromhex('0100000000001000800000aa00389b71'), 3: bytes.fromhex('0300000000001000800000aa00389b71')}
W64 = {'riff': '726966662e91cf11a5d628db04c10000', 'wave': '77617665f3acd3118cd100c04f8edb8a', 'fmt': '666d7420f3acd3118cd100c04f8edb8a', 'data': '64617461f3acd3118cd100c04f8edb8a'}
def py_wfx(flt, bits, rate, mask):
    import struct as S
    ch = bin(mask).count('1'); by = (bits + 7) // 8
    return U(0xfe, 0xff) + S.pack('<HIIHHHHI', ch, rate, ch * by * rate % 2 ** 32, ch * by, by * 8, 22, bits, mask) + UUID[3 if flt else 1]
def py_header(kind, flt, bits, rate, mask, n):
    """bytes of the header, or None when there is none"""
    import struct as S
    if mask >> 32: return None
    data = bin(mask).count('1') * ((bits + 7) // 8) * n; w = py_wfx(flt, bits, rate, mask)
    if kind == 0: return None if data + 68 > 0xfffffffe else b'RIFF' + S.pack('<I', 60 + data) + b'WAVEfmt ' + S.pack('<I', 40) + w + b'data' + S.pack('<I', data)
    h = {k: bytes.fromhex(v) for k, v in W64.items()}
    return h['riff'] + S.pack('<Q', 128 + data) + h['wave'] + h['fmt'] + S.pack('<Q', 64) + w + h['data'] + S.pack('<Q', data + 24)
def fmt_fields():
    return [('wFormatTag', 0, 2), ('nChannels', 2, 2), ('nSamplesPerSec', 4, 4), ('nAvgBytesPerSec', 8, 4), ('nBlockAlign', 12, 2), ('wBitsPerSample', 14, 2), ('cbSize', 16, 2), ('wValidBitsPerSample', 18, 2), ('dwChannelMask', 20, 4)]
def t_header(rec, fn):
    m = mod(); m.opaque_ctpop = True; size, at = {'CreateWaveHeader': (68, 20), 'CreateWave64Header': (128, 64), 'CreateWaveFormatExtensible': (40, 0)}[fn]; H = Region('header', 'obj', size=size)
    flt = var('isFloat', 1); bits, rate = var('bits', 32), var('rate', 32); mask, n = var('mask', 64), var('samples', 64); ch = trunc(uf('ctpop', 64, (mask,)), 32)
    facts = [sle(c32(16), bits), sle(bits, c32(32)), slt(c32(0), rate), slt(c64(0), n), sle(n, c64((2 ** 31 - 1) * 3072))]
    ex, outs, excs = m.run(rf'^{fn}\(', [P(H), flt, bits, rate, mask] + ([n] if size != 40 else []), facts)
    by = lshr(add(bits, c32(7)), c32(3)); ch64 = uf('ctpop', 64, (mask,)); by64 = zext(by, 64); data = mul(mul(ch64, by64), n); ba = mul(ch, by); ok = eq(lshr(mask, c64(32)), c64(0))
    if size == 68: ok = band(ok, ule(add(data, c64(68)), c64(0xfffffffe)))
    want = dict(zip((f for f, _, _ in fmt_fields()), (const(0xfffe, 16), trunc(ch, 16), rate, mul(ba, rate), trunc(ba, 16), trunc(scale(by, 8), 16), const(22, 16), trunc(bits, 16), trunc(mask, 32))))
    for x, v in outs:
        pc = tuple(x.pc) + tuple(ex.facts)
        rec.prove('a header is made exactly when the format can hold the channel mask and the size', eqb(bool_(v), ok), pc)
        get = lambda o, w: rd(ex, x, H, o, 8 * w)
        def field(name, o, w, val):
            g = get(o, w); rec.prove(f'{name}', implies(ok, FALSE if g is UNDEF else eq(g, val)), pc)
        for f, o, w in fmt_fields(): field(f, at + o, w, want[f])
        for k in range(16): field(f'SubFormat byte {k}', at + 24 + k, 1, ite(eq(flt, const(1, 1)), const(UUID[3][k], 8), const(UUID[1][k], 8)))
        def tag(name, o, b):
            for k, y in enumerate(b): field(f'{name} byte {k}', o + k, 1, const(y, 8))
        if size == 68:
            for name, o, b in (('RIFF tag', 0, b'RIFF'), ('WAVE tag', 8, b'WAVE'), ('fmt tag', 12, b'fmt '), ('data tag', 60, b'data')): tag(name, o, b)
            field('riffSize', 4, 4, trunc(add(data, c64(60)), 32)); field('fmtSize', 16, 4, c32(40)); field('dataSize', 64, 4, trunc(data, 32))
        elif size == 128:
            for name, o in (('riff', 0), ('wave', 24), ('fmt', 40), ('data', 104)): tag(name + ' id', o, bytes.fromhex(W64[name]))
            field('riffSize', 16, 8, add(data, c64(128))); field('fmtSize', 56, 8, c64(64)); field('dataSize', 120, 8, add(data, c64(24)))
    rec.check('the function returns', bool(outs) and not excs); rec.side(ex)
_tp = tasks
def tasks(tier): return _tp(tier) + [('p20', 't_header', f, dict(fn=f)) for f in ('CreateWaveFormatExtensible', 'CreateWaveHeader', 'CreateWave64Header')]

# ------------------------------------------------------------------ concrete search
import json, tempfile, subprocess, shutil
def pipe():
    import pipert
    if not hasattr(pipe, 'p'): pipe.p = pipert.Pipe()
    return pipe.p
Y4 = {(1, 1): '420', (1, 0): '422', (0, 0): '444', (2, 2): '410', (2, 0): '411', (0, 1): '440'}
def props_of(rng, dur):
    import numpy as np
    r = lambda a, b: int(rng.integers(a, b + 1)); P = {}
    if dur: P['_DurationNum'], P['_DurationDen'] = dur
    S = ['plain', 'quo"te\\', 'tab\t\n\r\b\f', '\x01\x1f', 'caf\u00e9 \u65e5', '']
    for k in range(r(0, 4)):
        n = f'k{r(0, 9)}'; t = r(0, 5)
        if t == 0: P[n] = [r(-2 ** 63, 2 ** 63 - 1) for _ in range(r(1, 3))]
        elif t == 1: P[n] = [float(rng.standard_normal() * 10.0 ** r(-12, 12)) if r(0, 3) else (math.inf, -math.inf, math.nan, 1e300, -5e-324, 1.7976931348623157e308)[r(0, 5)] for _ in range(r(1, 3))]
        elif t == 2: P[n] = [S[r(0, 5)] for _ in range(r(1, 2))]
        elif t == 3: P[n] = [bytes(rng.integers(1, 128, r(0, 12)).astype('u1'))]
        elif t == 4: P[n] = np.zeros(0, 'i8')
        else: P[n] = r(-5, 5)
    return P
def json_of(P):
    import numpy as np; o = {}
    for k, v in P.items():
        v = list(v) if isinstance(v, (list, np.ndarray)) else [v]
        w = [f'[binary data size: {len(x)}]' if isinstance(x, bytes) else None if isinstance(x, float) and not math.isfinite(x) else x for x in v]
        o[k] = None if not w else w[0] if len(w) == 1 else w
    return o
def run_case(x):
    import numpy as np, vs, time, ctypes as C
    p = pipe()
    if not p.lib: return None
    k = x['op']
    if k == 'header':
        kind, flt, bits, rate, mask, n = (int(i) for i in x['v']); buf = C.create_string_buffer(128); L = p.lib.wave_header; L.argtypes = [C.c_int, C.c_void_p, C.c_int, C.c_int, C.c_int, C.c_uint64, C.c_int64]
        r = L(kind, buf, flt, bits, rate, mask, n); want = py_header(kind, flt, bits, rate, mask, n)
        if bool(r) != (want is not None): return f'header for {x["v"]} {"made" if r else "refused"}'
        if want is not None and buf.raw[:len(want)] != want: return f'header for {x["v"]} is {buf.raw[:len(want)].hex()}, not {want.hex()}'
        return None
    rng = np.random.default_rng(int(x['seed'])); r = lambda a, b: int(rng.integers(a, b + 1)); pick = lambda *t: t[r(0, len(t) - 1)]
    d = tempfile.mkdtemp(prefix='verif-pipe-'); out, tc, js = (os.path.join(d, f) for f in ('out', 'tc', 'json')); logged = x.get('slow')
    try:
        args = ['script.vpy', out]; hdr = x['hdr']; idx = x.get('idx', 0)
        if hdr: args += ['-c', hdr]
        for o, v in (('-r', x.get('r')), ('-s', x.get('first')), ('-e', x.get('last'))):
            if v is not None: args += [o, str(v)]
        if idx: args += ['-o', str(idx)]
        sa = {'name': 'va=lue', 'b': ''} if x.get('sa') else {}
        for a, b in sa.items(): args += ['-a', f'{a}={b}']
        if x.get('tc'): args += ['-t', tc]
        if x.get('js'): args += ['-j', js]
        n = x['n']; s = x.get('first') or 0; e = x['last'] if x.get('last') is not None else n - 1; bad = x.get('bad', -1)
        if k == 'video':
            fmt = tuple(x['fmt']); w, h = x['w'], x['h']; al = x.get('alpha'); durs = [pick((1, 24), (1001, 24000), (1, 25), (1, 30)) if x.get('tc') != 2 else (1, 24) if i != bad else None for i in range(n)]
            PL = [[vs.randplane(rng, fmt[1], fmt[2], h >> (fmt[4] if q and fmt[0] == 3 else 0), w >> (fmt[3] if q and fmt[0] == 3 else 0), False) for q in range(3 if fmt[0] > 1 else 1)] for _ in range(n)]
            AL = [vs.randplane(rng, fmt[1], fmt[2], h, w, False) for _ in range(n)]; PR = [props_of(rng, durs[i]) for i in range(n)]
            zz = [pick(0, 0, 0, .001, .004) if logged else 0 for _ in range(n)]
            def make(c, i, a):
                if i != idx or a and not al: return None
                f = c.format(*((1, fmt[1], fmt[2]) if a else fmt))
                def get(q):
                    if zz[n - 1 - q if a else q]: time.sleep(zz[n - 1 - q if a else q])
                    return c.mkframe(f, w, h, [AL[q]] if a else PL[q], None if a else PR[q])
                return c.source(f, w, h, (get, n), fps=(30000, 1001))
            ok = s < n and s <= e < n
            if hdr == 'y4m': ok = ok and fmt[0] != 2 and not al and (fmt[0] == 1 or fmt[3:] in Y4)
            elif hdr: ok = False
            rc, got = p.run(make, args)
            if bool(rc) != (not ok or bool(x.get('tc') == 2 and s <= bad <= e)): return f'exit code {rc} for {x}'
            if dict((q, [y[0] for y in v[1]]) for q, v in got.items()) != {a: [b.encode()] for a, b in sa.items()}: return f'script arguments {got}'
            if not ok: return None
            last = bad if x.get('tc') == 2 and s <= bad <= e else e; want = b''
            if hdr == 'y4m':
                nm = 'mono' + (str(fmt[2]) if fmt[2] > 8 else '') if fmt[0] == 1 else Y4[fmt[3:]] + (('p' + ({16: 'h', 32: 's'}[fmt[2]])) if fmt[1] else f'p{fmt[2]}' if fmt[2] > 8 else '')
                want = f'YUV4MPEG2 C{nm} W{w} H{h} F30000:1001 Ip A0:0 XLENGTH={e - s + 1}\n'.encode()
            for i in range(s, last + 1):
                if hdr == 'y4m': want += b'FRAME\n'
                for q in ((1, 2, 0) if fmt[0] == 2 else range(len(PL[i]))): want += PL[i][q].tobytes()
                if al: want += AL[i].tobytes()
            data = open(out, 'rb').read()
            if data != want:
                j = next((j for j, (a, b) in enumerate(zip(data, want)) if a != b), min(len(data), len(want))); return f'output of {len(data)} bytes (expected {len(want)}) differs at byte {j}: {data[j:j + 24]!r}, not {want[j:j + 24]!r}'
            if x.get('tc'):
                L = open(tc).read().split('\n')
                if L[0] != '# timecode format v2': return f'timecode file starts with {L[0]!r}'
                acc = Fr(0); T = []
                for i in range(s, last + 1): T.append(acc); acc += Fr(*durs[i]) if durs[i] else 0
                if len(L) != len(T) + 2 or L[-1]: return f'{len(L) - 2} timecodes for {len(T)} frames'
                for i, (a, b) in enumerate(zip(L[1:], T)):
                    if abs(float(a) - float(b) * 1000) > 1e-9 * (1 + float(b) * 1000): return f'timecode of frame {i} is {a}, not {float(b) * 1000}'
            if x.get('js') and not (x.get('tc') == 2 and s <= bad <= e):
                t = open(js, encoding='utf8', newline='').read()
                try: J = json.loads(t)
                except ValueError as er: return f'JSON file cannot be read: {er}: {t[:300]!r}'
                for i in range(s, e + 1):
                    if i - s >= len(J) or J[i - s] != json_of(PR[i]): return f'JSON properties of frame {i} are {J[i - s] if i - s < len(J) else None}, not {json_of(PR[i])}'
                if len(J) != e - s + 1: return f'{len(J)} JSON entries for {e - s + 1} frames'
        else:
            st, bits, mask = x['fmt']; mask = int(mask); ch = bin(mask).count('1'); by = 2 if bits <= 16 else 4
            S = [rng.integers(-2 ** (8 * by - 1), 2 ** (8 * by - 1), n).astype('i2' if by == 2 else 'i4') for _ in range(ch)]
            if st: S = [q.view('f4') for q in S]
            zz = [pick(0, 0, .002) for _ in range(n // 3072 + 1)]
            def make(c, i, a):
                if i != idx or a: return None
                return c.asource(c.aformat(st, bits, mask), x['rate'], S)
            ok = s < n and s <= e < n and hdr != 'y4m'; hd = b''
            if ok and hdr:
                hd = py_header(hdr == 'w64', st, bits, x['rate'], mask, e - s + 1); ok = hd is not None
            rc, got = p.run(make, args)
            if bool(rc) != (not ok): return f'exit code {rc} for {x}'
            if not ok: return None
            ob = (bits + 7) // 8; B = np.stack([q[s:e + 1].view('u1').reshape(-1, by)[:, by - ob:] if ob == 3 else q[s:e + 1].view('u1').reshape(-1, by) for q in S], 1).tobytes(); want = hd + B
            data = open(out, 'rb').read()
            if data != want:
                j = next((j for j, (a, b) in enumerate(zip(data, want)) if a != b), min(len(data), len(want))); return f'output of {len(data)} bytes (expected {len(want)}) differs at byte {j}: {data[j:j + 24].hex()}, not {want[j:j + 24].hex()}'
    finally: shutil.rmtree(d, ignore_errors=True)
def quiet():
    """messages of the program go nowhere"""
    if not hasattr(quiet, 'f'): quiet.f = os.open('/dev/null', os.O_WRONLY); os.dup2(quiet.f, 2)
def hunt(H):
    import hc
    r = lambda a, b: int(H.rng.integers(a, b + 1)); pick = lambda *t: t[r(0, len(t) - 1)]
    quiet()
    while H.go():
        t = r(0, 9); x = dict(seed=str(r(0, 2 ** 60)))
        if t == 0:
            for _ in range(40):
                mask = pick(1, 3, r(1, 2 ** 18), r(1, 2 ** 32 - 1), 2 ** 32 - 1, 2 ** 32, 2 ** 40 + 3, 2 ** 31); bits = r(16, 32); ch = bin(mask).count('1') * ((bits + 7) // 8)
                v = [r(0, 1), r(0, 1), bits, pick(44100, 1, 2 ** 31 - 1, r(1, 400000)), mask, max(1, pick(1, r(1, 10 ** 7), (2 ** 31 - 1) * 3072, (0xfffffffe - 68) // ch + r(-1, 1), r(1, 2 ** 32)))]
                y = H.case('header', op='header', v=[str(i) for i in v]); e = run_case(y)
                if e: H.fail(e)
            continue
        if t == 1:
            st = r(0, 1); n = pick(r(1, 5), 3072, 3073, r(1, 20000)); x.update(op='audio', hdr=pick('', 'wav', 'w64', 'wav', 'w64', 'y4m'), n=n, rate=pick(44100, 48000, r(1, 200000)), fmt=[st, 32 if st else pick(16, 24, 32, r(17, 31)), str(pick(1, 3, 63, r(1, 2 ** 10), 1 << r(0, 31), (1 << 33) + 1))])
        else:
            f = hc.gen_fmt(H.rng, bits=(8, 9, 10, 12, 16, 24, 32)); w, h = hc.gen_dims(H.rng, f, big=0.2); n = r(1, 12)
            x.update(op='video', hdr=pick('', '', 'y4m', 'y4m', 'y4m', 'wav') if r(0, 5) == 0 else pick('', 'y4m') if f[0] != 2 else '', n=n, fmt=list(f), w=w, h=h, tc=pick(0, 0, 1, 1, 2), js=r(0, 1), slow=r(0, 2) == 0, r=pick(None, 1, 2, r(1, 20)), sa=r(0, 3) == 0, idx=pick(0, 0, 0, 2), bad=r(0, n + 3))
            x['alpha'] = r(0, 3) == 0 and (x['hdr'] != 'y4m' or r(0, 3) == 0)
            if x['hdr'] == 'y4m' and f[0] == 1 and f[1]: continue
        if r(0, 2) == 0: x['first'] = r(0, n + (r(0, 4) == 0))
        if r(0, 2) == 0: x['last'] = r(x.get('first') or 0, n - 1 + (r(0, 4) == 0)) if (x.get('first') or 0) < n - 1 else n - 1
        y = H.case(x['op'], **x); e = run_case(y)
        if e: H.fail(e)
def rerun(x): return run_case(x)
