"""P21 frame property filters: SetFrameProp, SetFrameProps, RemoveFrameProps, SetFieldBased, CopyFrameProps, ClipToProp, PropToClip."""
from common import *
from api import Sym
from p03 import mod, X64
LEVEL = 'proof'
HUNT_S = {'quick': 30, 'thorough': 300}; HUNT_PARTS = 3
TASK_S = {'quick': 150, 'thorough': 600}
SAME = lambda rec, run, x, pc, c, N: (dims(rec, run, x, pc, lambda p: (run.api.pw(c, p, Z64, 'width'), run.api.pw(c, p, Z64, 'height'))), pixels(rec, run, x, pc, lambda p, y, xx: srcpx(run, x.st, c, p, N, y, xx)))
def changes(rec, run, x, pc, c, n):
    """the frame is a copy of frame n of clip c; returns the property operations applied to it afterwards (None when the copy itself is wrong)"""
    k = run.api.frame(x.v)
    if k[0] != 'new': rec.fail('the output is a private copy of the source frame'); return None
    log = run.api.log(x.st, k[1].props)
    if not log or log[0][0] != 'from' or log[0][1].r.info.get('clip') is not c: rec.fail('properties start from the source frame', repr(log)[:300]); return None
    rec.prove('properties start from the documented frame', eq(log[0][1].o, n), tuple(pc) + tuple(run.ex.facts)); return log[1:]
def onlyops(rec, what, ops, *want):
    """the operations are exactly the wanted ones (each a predicate)"""
    ok = ops is not None and len(ops) == len(want) and all(w(o) for w, o in zip(want, ops))
    rec.check(what, ok) if ok else rec.fail(what, repr(ops)[:300]); return ok
def strarg(*names): return {'count': const(len(names) or -1, 32), 'syms': [Sym(n) for n in names], 'get': lambda k, i: const(0, 64), 'has': TRUE if names else FALSE}
def arrarg(nm, on=True):
    cnt = var(f'count.{nm}', 32, 1, 1 << 20) if on else const(-1, 32)
    return {'count': cnt, 'get': lambda k, i: uf(f'arg.{nm}', 64, (i,)), 'has': TRUE if on else FALSE}
def clip0(planes, nm='clip'): return vclip(nm, 1, planes)
def t_fieldbased(rec, planes):
    c = clip0(planes); run = Run(mod(), 'SetFieldBased', {'clip': clipargs(c)}, extra=fmtfacts(c)); v = run.args['value']['val']
    def onframe(x, pc, n):
        SAME(rec, run, x, pc, c, X64(n))
        props_from(rec, run, x, pc, c, X64(n), {'_Field': (TRUE, 'del'), '_FieldBased': (TRUE, 'int', v)})
    drive(rec, run, band(sle(c64(0), v), sle(v, c64(2))), vi_same(c), onframe, fmtfacts(c))
NUM = ('intval', 'floatval')
def t_setprop(rec, kinds, count=1):
    c = clip0(1); cfg = fmtfacts(c); args = {'clip': clipargs(c), 'prop': strarg('prop')}; name = args['prop']['syms'][0]
    for k in NUM: args[k] = arrarg(k, k in kinds)
    args['data'] = strarg(*[f'data{j}' for j in range(count)]) if 'data' in kinds else strarg()
    run = Run(mod(), 'SetFrameProp', args, extra=cfg); valid = band(bnot(eq(name.len, c32(0))), TRUE if len(kinds) == 1 else FALSE)
    def onframe(x, pc, n):
        SAME(rec, run, x, pc, c, X64(n)); ops = changes(rec, run, x, pc, c, X64(n)); F = tuple(pc) + tuple(run.ex.facts); k = kinds[0]
        if k in NUM:
            if not onlyops(rec, 'exactly the named property is replaced by an array of the given type', ops, lambda o: o[0] == 'setarr' and o[1] == name and o[2] == k[:-3]): return
            _, _, _, ptr, cnt, st = ops[0]
            rec.prove('the property gets as many elements as were given', eq(cnt, args[k]['count']), F)
            j = var('elem', 64, 0, 1 << 20); got = run.ex.load(st, padd(ptr, scale(j, 8)), ty('i64'))
            rec.prove('every element has the given value', eq(got, args[k]['get'](k[:-3], j)), F + (slt(j, X64(args[k]['count'])),))
        else:
            S = args['data']['syms']
            if not onlyops(rec, 'exactly the named property is replaced by the given data elements', ops, lambda o: o[0] == 'set' and o[1] == name and o[2] == 'data' and len(o[3]) == len(S) and all(isinstance(u, tuple) and u[0] == w for u, w in zip(o[3], S))): return
            for u, w in zip(ops[0][3], S): rec.prove('data elements keep their size and type hint', band(eq(u[1], w.len), eq(u[2], w.hint)), F)
    drive(rec, run, valid, vi_same(c), onframe, cfg)
def t_setprops(rec):
    c = clip0(1); cfg = fmtfacts(c); run = Run(mod(), 'SetFrameProps', {'clip': clipargs(c)}, extra=cfg)
    def onframe(x, pc, n):
        SAME(rec, run, x, pc, c, X64(n)); ops = changes(rec, run, x, pc, c, X64(n))
        if not onlyops(rec, 'the stored map is copied into the properties', ops, lambda o: o[0] == 'copyall' and o[1].r.info.get('map')): return
        onlyops(rec, 'the stored map holds every argument except clip', run.api.log(x.st, ops[0][1].r), lambda o: o[0] == 'copyall' and o[1].r is run.api.inmap.r, lambda o: o == ('del', 'clip'))
    drive(rec, run, TRUE, vi_same(c), onframe, cfg)
def t_removeall(rec):
    c = clip0(1); cfg = fmtfacts(c); run = Run(mod(), 'RemoveFrameProps', {'clip': clipargs(c), 'props': strarg()}, extra=cfg)
    def onframe(x, pc, n):
        SAME(rec, run, x, pc, c, X64(n)); onlyops(rec, 'every property is removed', changes(rec, run, x, pc, c, X64(n)), lambda o: o == ('clear',))
    drive(rec, run, TRUE, vi_same(c), onframe, cfg)
def last(c, n): nf = c.field('numFrames'); return X64(ite(slt(n, nf), n, sub(nf, c32(1))))
def t_copyprops(rec, names):
    c, d = clip0(1), clip0(3, 'src'); cfg = tuple(fmtfacts(c)) + tuple(fmtfacts(d)); run = Run(mod(), 'CopyFrameProps', {'clip': clipargs(c), 'prop_src': clipargs(d), 'props': strarg(*names)}, extra=cfg)
    seen = set()
    def onframe(x, pc, n):
        SAME(rec, run, x, pc, c, X64(n)); ops = changes(rec, run, x, pc, c, X64(n)); F = tuple(pc) + tuple(run.ex.facts); m = last(d, n)
        if ops is None: return
        src = lambda q: isinstance(q, P) and q.r is d.preg
        if not names:
            if onlyops(rec, 'all properties are replaced by the other frame\'s', ops, lambda o: o == ('clear',), lambda o: o[0] == 'copyall' and src(o[1])): rec.prove('the other frame is the documented one', eq(ops[1][1].o, m), F)
            return
        ops = list(ops)
        for nm in names:
            cnt, typ = run.api.prop_base(nm, 'count', P(d.preg, m)), run.api.prop_base(nm, 'type', P(d.preg, m))
            if not ops or ops.pop(0) != ('del', nm): rec.fail('the old value is removed first', repr(ops)[:200]); return
            def mine(o): return o[0] == 'loop' and all(q[0] == 'copyelem' and q[1] == nm for q in o[3]) or o[0] != 'loop' and o[0] != 'del' and o[1] == nm
            part = []
            while ops and mine(ops[0]): part.append(ops.pop(0))
            if not part:
                seen.add('none'); rec.prove('nothing is stored only when the source has no such property of a known type', bor(slt(cnt, c32(0)), eq(cnt, c32(0)) if False else slt(cnt, c32(0)), eq(typ, c32(0)), slt(c32(8), typ)), F); continue
            if len(part) != 1: rec.fail('one copy per property', repr(part)[:300]); return
            o = part[0]
            if o[0] == 'set' and o[3] == (): seen.add('empty'); rec.prove('an empty property stays empty with its type', band(eq(cnt, c32(0)), eq(typ, o[2]) if isinstance(o[2], T) else FALSE), F)
            elif o[0] == 'setarr':
                seen.add(o[2]); pa = o[3].r.info.get('proparr') if isinstance(o[3], P) else None
                rec.prove(f'{o[2]} elements are all copied', band(TRUE if pa and pa[0] is d.preg and pa[2] == nm and pa[3] == o[2] and o[3].o is Z64 else FALSE, eq(pa[1], m) if pa else FALSE, eq(o[4], cnt), eq(typ, c32({'int': 1, 'float': 2}[o[2]]))), F)
            elif o[0] == 'loop' and len(o[3]) == 1:
                _, t, N, ((_, _, what, e, mode, extra),) = o; seen.add(what)
                rec.prove(f'{what} elements are appended in order, all of them', band(TRUE if e[0] is d.preg and e[2] == nm and mode == 1 else FALSE, eq(e[1], m), eq(e[3], t), eq(N, X64(cnt))), F)
                ts = {'data': (3,), 'node': (5, 6), 'frame': (7, 8), 'function': (4,)}[what]
                ok = bor(*[eq(typ, c32(q)) for q in ts])
                rec.prove(f'{what} elements come from a property of that type', ok, F)
                if what == 'data': rec.prove('data elements keep their size and type hint', band(*[eq(g, uf(f'{d.name}.prop.{nm}.{q}', 32, (m, e[3]), *r)) for g, q, r in zip(extra, ('size', 'hint'), ((0, 1 << 30), (-1, 2)))]), F + (sle(Z64, t), slt(t, N)))
            else: rec.fail('the copy has a known form', repr(o)[:300])
        rec.check('no other property changes', not ops)
    drive(rec, run, TRUE, vi_same(c), onframe, cfg)
    if names: rec.check('every kind of property is copied', seen >= {'none', 'empty', 'int', 'float', 'data', 'node', 'frame', 'function'}) if seen >= {'none', 'empty', 'int', 'float', 'data', 'node', 'frame', 'function'} else rec.fail('every kind of property is copied', repr(sorted(seen)))
def const_vi(c): return band(slt(c32(0), c.field('width')), slt(c32(0), c.field('height')))
def t_cliptoprop(rec, named):
    c, m = clip0(3), clip0(1, 'mclip'); cfg = tuple(fmtfacts(c)) + tuple(fmtfacts(m)); run = Run(mod(), 'ClipToProp', {'clip': clipargs(c), 'mclip': clipargs(m), 'prop': strarg('prop') if named else strarg()}, extra=cfg)
    key = 'prop' if named else '_Alpha'
    def onframe(x, pc, n):
        N = last(c, n); SAME(rec, run, x, pc, c, N); ops = changes(rec, run, x, pc, c, N)
        if onlyops(rec, 'exactly one property is set to one frame', ops, lambda o: o[0] == 'set' and o[1] == key and o[2] == 'frame' and len(o[3]) == 1 and isinstance(o[3][0], P) and o[3][0].r is m.freg):
            rec.prove('it is the frame of mclip with the same number', eq(ops[0][3][0].o, X64(n)), tuple(pc) + tuple(run.ex.facts))
    drive(rec, run, TRUE, vi_same(c, numFrames=m.field('numFrames')), onframe, cfg)
def t_proptoclip(rec, named):
    c = clip0(1); q = Clip('stored', array=True, numPlanes=1, subSamplingW=0, subSamplingH=0); cfg = fmtfacts(c); run = None
    import filt
    A = {'clip': clipargs(c), 'prop': strarg('prop') if named else strarg()}
    orig = filt.Api
    class A_(orig):
        def __init__(s, *a, **k): orig.__init__(s, *a, **k); s.propclips[c.name] = q
    filt.Api = A_
    try: run = Run(mod(), 'PropToClip', A, extra=cfg)
    finally: filt.Api = orig
    api = run.api; key = A['prop']['syms'][0] if named else '_Alpha'; ix = run.args['index']; idx = ite(ix['has'], sat32(ix['val']), c32(0)); mp = lambda n: P(c.preg, n)
    def there(n): return band(sle(c32(0), idx), slt(idx, api.prop_base(key, 'count', mp(n))), eq(api.prop_base(key, 'type', mp(n)), c32(7)))
    valid = band(there(Z64), var(f'frame.available.{c.name}', 1), bnot(eq(key.len, c32(0))) if named else TRUE)
    fmt = {f: q.field(f, Z64) for f in ('colorFamily', 'sampleType', 'bitsPerSample', 'bytesPerSample', 'subSamplingW', 'subSamplingH', 'numPlanes')}
    vi = vi_same(c, width=q.field('width', Z64), height=q.field('height', Z64), **fmt)
    n = var('n', 32, 0, MAXFR); kinds = set()
    for o in run.outs:
        pc = tuple(o.st.pc) + tuple(cfg) + tuple(run.ex.facts)
        if not solve.feasible(pc): continue
        kinds.add(o.kind)
        if o.kind == 'error': rec.prove('arguments rejected only when invalid', bnot(valid), pc); continue
        if o.kind != 'filter': rec.prove(f'create outcome {o.kind} never happens', FALSE, pc); continue
        rec.prove('accepted arguments are valid', valid, pc)
        for f, t in vi.items(): rec.prove(f'output {f}', eq(o.vi[f], t), pc)
        for x in run.frame(o, n, extra=cfg):
            pcx = tuple(x.st.pc) + tuple(cfg) + tuple(run.ex.facts); N = X64(n)
            if not solve.feasible(pcx): continue
            match = band(there(N), *[eq(q.field(f, N), q.field(f, Z64)) for f in ('colorFamily', 'sampleType', 'bitsPerSample', 'subSamplingW', 'subSamplingH', 'width', 'height')])
            kinds.add('f' + x.kind)
            if x.kind == 'error': rec.prove('a frame request fails only when the stored frame is missing or differs', bnot(match), pcx); continue
            if x.kind != 'frame': rec.prove(f'frame request outcome {x.kind} never happens', FALSE, pcx); continue
            requests(rec, run, x, pcx); rec.prove('a delivered frame matches the output format', match, pcx)
            k = api.frame(x.v); ev = [e for e in x.st.ev if e[0] == 'propframe']
            rec.prove('the delivered frame is the stored one of this frame number', eq(k[2], N) if k[0] == 'in' and k[1] is q else FALSE, pcx)
            rec.prove('it is read from the documented property and index', band(*[TRUE if e[1] is c and e[3] == key else FALSE for e in ev], *[eq(e[4], idx) for e in ev]) if ev else FALSE, pcx)
    rec.check('accepted, rejected, delivered and failed cases are all reachable', kinds >= {'error', 'filter', 'ferror', 'fframe'}); rec.side(run.ex)
def tasks(tier):
    T = [('p21', 't_fieldbased', f'SetFieldBased {p} planes', dict(planes=p)) for p in (1, 3)]
    T += [('p21', 't_setprop', 'SetFrameProp ' + ' and '.join(k) if k else 'SetFrameProp without a value', dict(kinds=k)) for k in (('intval',), ('floatval',), (), NUM, ('intval', 'data'), ('floatval', 'data'))]
    T += [('p21', 't_setprop', f'SetFrameProp data, {q} elements', dict(kinds=('data',), count=q)) for q in (1, 2, 3)]
    T += [('p21', 't_setprops', 'SetFrameProps', {}), ('p21', 't_removeall', 'RemoveFrameProps without patterns', {})]
    T += [('p21', 't_copyprops', f'CopyFrameProps {len(k)} names', dict(names=k)) for k in ((), ('key0',), ('key0', 'key1'))]
    T += [('p21', 't_cliptoprop', f'ClipToProp {"named" if k else "default"}', dict(named=k)) for k in (0, 1)]
    T += [('p21', 't_proptoclip', f'PropToClip {"named" if k else "default"}', dict(named=k)) for k in (0, 1)]
    return T

# ------------------------------------------------------------------ concrete search
NAMES = ['_FieldBased', '_Field', '_Alpha', '_Matrix', 'a', 'ab', 'abc', 'b', '_DurationNum', 'Prop1', 'Prop10', 'Prop2', 'xProp1', 'Alpha', 'aXb', 'long_property_name_0123456789_0123456789']
def core():
    import vs
    if not hasattr(core, 'c'): core.c = vs.Core()
    return core.c
def rprops(rng, tag, keys=None, n=None):
    """random property set: key -> (type, values); frames are numbers here"""
    r = lambda a, b: int(rng.integers(a, b + 1)); out = {}
    for k in (keys or [NAMES[i] for i in rng.permutation(len(NAMES))[:r(0, 7) if n is None else n]]):
        t = r(0, 5); m = r(1, 3) if r(0, 9) else 70
        if t == 0 or t == 5: out[k] = (1, [r(-2 ** 63, 2 ** 63 - 1) if r(0, 1) else r(-3, 3) for _ in range(m)])
        elif t == 1: out[k] = (2, [float(rng.normal()) * 10.0 ** r(-9, 9) for _ in range(m)])
        elif t == 2: out[k] = (3, [(bytes(rng.integers(0 if r(0, 1) else 65, 256, r(0, 12), dtype='uint8')), r(0, 1) - 0) for _ in range(m)])
        elif t == 3: out[k] = (7, [r(0, 255) for _ in range(m)])
        else: out[k] = (r(1, 3), [])
    return out
def put(c, m, d, mk_):
    import ctypes as C
    a = c.a
    for k, (t, vs_) in d.items():
        kk = k.encode()
        if not vs_: a.mapSetEmpty(m, kk, t)
        for v in vs_:
            if t == 1: a.mapSetInt(m, kk, v, 1)
            elif t == 2: a.mapSetFloat(m, kk, v, 1)
            elif t == 3: a.mapSetData(m, kk, v[0], len(v[0]), 1 if v[1] else 0, 1)
            elif t == 7: a.mapSetFrame(m, kk, mk_(v).p, 1)
def got(fr):
    d = {}
    for k, (t, v) in fr.props().items(): d[k] = (t, [int(f.plane(0)[0, 0]) for f in v] if t == 7 else v)
    return d
def norm(d): return {k: (t, [tuple(q) if isinstance(q, (list, tuple)) else q for q in v]) for k, (t, v) in d.items()}
def differ(g, w, what):
    g, w = norm(g), norm(w)
    for k in sorted(set(g) | set(w)):
        if k not in g: return f'{what}: property {k} is missing'
        if k not in w: return f'{what}: property {k} should not be there'
        if g[k] != w[k]: return f'{what}: property {k} is {str(g[k])[:80]} instead of {str(w[k])[:80]}'
def glob(p, s):
    """does the pattern match the whole name"""
    if not p: return not s
    if p[0] == '*': return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and (p[0] == '?' or p[0] == s[0]) and glob(p[1:], s[1:])
def run_case(x):
    import vs, numpy as np
    c = core(); rng = np.random.default_rng(x['seed']); op = x['op']; G = c.format(1, 0, 8); r = lambda a, b: int(rng.integers(a, b + 1))
    fs = {}
    def mk_(v, w=8, h=4):
        if (v, w, h) not in fs: fs[v, w, h] = c.mkframe(G, w, h, [np.full((h, w), v, np.uint8)])
        return fs[v, w, h]
    def clip(n, w, h, force=None):
        P_ = []; F_ = []
        for i in range(n):
            d = rprops(rng, 'p', force(i) if force and r(0, 5) else None); pl = rng.integers(0, 256, (h, w), dtype=np.uint8); f = c.mkframe(G, w, h, [pl]); put(c, c.a.getFramePropertiesRW(f.p), d, mk_); P_.append(d); F_.append((f, pl))
        return c.source(G, w, h, [f for f, _ in F_]), P_, [p for _, p in F_]
    A, PA, XA = clip(x['na'], 16, 6); ln = x['na']; args = {'clip': A}; fail = None; mis = None
    at = lambda L, i: L[min(i, len(L) - 1)]
    if op == 'SetFrameProp':
        kinds = x['kinds']; key = x['key']; args['prop'] = key; vals = {}
        for k in kinds:
            m = x['m']; v = {'intval': lambda: r(-2 ** 63, 2 ** 63 - 1), 'floatval': lambda: float(rng.normal()), 'data': lambda: bytes(rng.integers(0, 256, r(0, 9), dtype=np.uint8)) if r(0, 1) else 'txt' + str(r(0, 99))}[k]
            vals[k] = [v() for _ in range(m)]; args[k] = vals[k]
        fail = len(kinds) != 1 or key == ''
        def want(i):
            d = dict(PA[i]); k = kinds[0]; d[key] = ({'intval': 1, 'floatval': 2, 'data': 3}[k], [(v.encode(), 1) if isinstance(v, str) else (v, 0) if isinstance(v, bytes) else v for v in vals[k]]); return d
    elif op == 'SetFrameProps':
        d2 = {k: v for k, v in rprops(rng, 's', n=r(0, 4)).items() if v[1] and v[0] != 7}
        for k, (t, v) in d2.items(): args[k] = [b for b, h in v] if t == 3 else v
        for k in d2: d2[k] = (d2[k][0], [(b, 0) for b, h in d2[k][1]]) if d2[k][0] == 3 else d2[k]
        want = lambda i: {**PA[i], **d2}
    elif op == 'RemoveFrameProps':
        if x['pats'] is not None: args['props'] = x['pats']
        want = lambda i: {k: v for k, v in PA[i].items() if x['pats'] is not None and not any(glob(p, k) for p in x['pats'])}
    elif op == 'SetFieldBased':
        args['value'] = x['value']; fail = not 0 <= x['value'] <= 2
        want = lambda i: {**{k: v for k, v in PA[i].items() if k != '_Field'}, '_FieldBased': (1, [x['value']])}
    elif op == 'CopyFrameProps':
        B, PB, XB = clip(x['nb'], 8, 8); args['prop_src'] = B
        if x['keys']: args['props'] = x['keys']
        def want(i):
            s = at(PB, i)
            return dict(s) if not x['keys'] else {**{k: v for k, v in PA[i].items() if k not in x['keys']}, **{k: s[k] for k in x['keys'] if k in s}}
    elif op == 'ClipToProp':
        B, PB, XB = clip(x['nb'], 8, 8); args['mclip'] = B; ln = x['nb']; key = x['key'] or '_Alpha'
        if x['key']: args['prop'] = x['key']
        want = lambda i: {**at(PA, i), key: (7, [int(XB[i][0, 0])])}
    elif op == 'PropToClip':
        key = x['key'] if x['key'] is not None else '_Alpha'; sizes = {}; idx = x['index'] or 0
        for i in range(x['na']):
            m = r(1, 3) if r(0, 3) or x['full'] else r(0, 1); L = [(r(0, 255), 8, 4) if r(0, 5) or x['full'] else (r(0, 255), r(1, 9), r(1, 5)) for _ in range(m)]; sizes[i] = L; f = c.mkframe(G, 16, 6, [XA[i]], None)
            put(c, c.a.getFramePropertiesRW(f.p), {k: v for k, v in PA[i].items() if k != key}, mk_)
            for v in L: c.a.mapSetFrame(c.a.getFramePropertiesRW(f.p), (key or 'q').encode(), mk_(*v).p, 1)
            sizes[i, 'f'] = f
        args['clip'] = c.source(G, 16, 6, [sizes[i, 'f'] for i in range(x['na'])])
        if x['key'] is not None: args['prop'] = key
        if x['index'] is not None: args['index'] = x['index']
        fail = key == '' or idx < 0 or idx >= len(sizes[0])
    try: n = c.std(op, **args)
    except vs.VSError as e: return None if fail else f'{op}: rejected valid arguments: {e}'
    if fail: return f'{op}: accepted invalid arguments'
    if n.vi.numFrames != ln: return f'{op}: {n.vi.numFrames} frames instead of {ln}'
    if op == 'PropToClip' and ((n.vi.width, n.vi.height) != sizes[0][idx][1:]): return f'{op}: output is {n.vi.width}x{n.vi.height}, the stored frame {sizes[0][idx]}'
    for i in [int(v) for v in rng.permutation(ln)[:6]]:
        try: f = n.frame(i)
        except vs.VSError as e:
            if op == 'PropToClip' and (idx >= len(sizes[i]) or sizes[i][idx][1:] != sizes[0][idx][1:]): continue
            return f'{op}: frame {i} failed: {e}'
        if op == 'PropToClip':
            if idx >= len(sizes[i]) or sizes[i][idx][1:] != sizes[0][idx][1:]: return f'{op}: frame {i} delivered although the stored frame is missing or of another size'
            if f.plane(0).tolist() != mk_(*sizes[i][idx]).plane(0).tolist(): return f'{op}: frame {i} is another frame than the stored one'
            continue
        if f.plane(0).tolist() != at(XA, i).tolist(): return f'{op}: pixels of frame {i} changed'
        e = differ(got(f), want(i), f'{op} frame {i}')
        if e: return e
        e = differ(got(A.frame(min(i, x['na'] - 1))), at(PA, i), f'{op}: input frame {i}')
        if e: return e
def hunt(H):
    r = lambda a, b: int(H.rng.integers(a, b + 1)); pick = lambda *t: t[r(0, len(t) - 1)]; nm = lambda: NAMES[r(0, len(NAMES) - 1)]
    while H.go():
        op = pick('SetFrameProp', 'SetFrameProp', 'SetFrameProps', 'RemoveFrameProps', 'RemoveFrameProps', 'SetFieldBased', 'CopyFrameProps', 'CopyFrameProps', 'ClipToProp', 'PropToClip'); x = dict(seed=r(0, 2 ** 31), na=r(1, 5), nb=r(1, 5))
        if op == 'SetFrameProp':
            x['kinds'] = [pick(*NUM, 'data')] if r(0, 12) else [k for k in (*NUM, 'data') if r(0, 1)]; x['key'] = nm() if r(0, 30) else ''; x['m'] = pick(1, 1, 2, 3, 100)
        elif op == 'RemoveFrameProps':
            def pat():
                s = list(nm())
                for _ in range(r(0, 3)):
                    if s: k = r(0, len(s) - 1); s[k] = pick('*', '?', '', '?', '.', '+') if r(0, 6) else pick('[', '(', '\\', '|', '^', '$', '{', '-', 'a*', ')', ']')
                s = ''.join(s); return s if r(0, 5) else pick('*', '?', 'a*', '*1', 'Prop?', '*Prop*', '_*', s + '*', '*' + s, '?' * r(1, 4), '', '.*', 'a|b', '_.*', '**', '*?')
            x['pats'] = None if r(0, 9) == 0 else [pat() for _ in range(r(1, 3))]
        elif op == 'SetFieldBased': x['value'] = r(0, 2) if r(0, 6) else pick(-1, 3, 2 ** 32, 2 ** 62, -2 ** 62, 2 ** 32 + 1)
        elif op == 'CopyFrameProps': x['keys'] = [nm() for _ in range(r(0, 5))]
        elif op == 'ClipToProp': x['key'] = nm() if r(0, 1) else None
        elif op == 'PropToClip': x['key'] = pick(None, nm(), nm(), nm()) if r(0, 30) else ''; x['index'] = pick(None, 0, 0, 1, 2) if r(0, 20) else pick(-1, 5, 2 ** 32, -2 ** 40); x['full'] = r(0, 1)
        y = H.case(op, op=op, **x); e = run_case(y)
        if e: H.fail(e)
def rerun(x): return run_case(x)
