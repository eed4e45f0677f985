"""Contracts of the VapourSynth API functions a filter sees (assumed here; the core's own side is checked
by the core properties). Frames requested from an input clip are symbolic functions of the frame number."""
import re, sys, os
from term import *
from exec import *
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'rt'))
MAXDIM = 1 << 20          # assumption: dimensions (a plane has to fit in memory)
MAXFR = (1 << 31) - 1

def api_names(struct='VSAPI'):
    import vs
    return [n for n, _, _ in vs.api_table(struct)]

FMT = {0: 'colorFamily', 4: 'sampleType', 8: 'bitsPerSample', 12: 'bytesPerSample', 16: 'subSamplingW', 20: 'subSamplingH', 24: 'numPlanes'}
VI = dict(FMT); VI.update({32: 'fpsNum', 40: 'fpsDen', 48: 'width', 52: 'height', 56: 'numFrames'})
AFMT = {0: 'sampleType', 4: 'bitsPerSample', 8: 'bytesPerSample', 12: 'numChannels', 16: 'channelLayout'}
AI = dict(AFMT); AI.update({24: 'sampleRate', 32: 'numSamples', 40: 'numFrames'})
W64 = {'fpsNum', 'fpsDen', 'channelLayout', 'numSamples'}
RANGES = {'width': (1, MAXDIM), 'height': (1, MAXDIM), 'numFrames': (1, MAXFR), 'fpsNum': (0, (1 << 63) - 1), 'fpsDen': (0, (1 << 63) - 1),
          'sampleRate': (1, (1 << 31) - 1), 'numSamples': (1, (MAXFR) * 3072), 'numChannels': (1, 64), 'subSamplingW': (0, 4), 'subSamplingH': (0, 4),
          'bitsPerSample': (8, 32), 'colorFamily': (0, 3), 'sampleType': (0, 1), 'numPlanes': (0, 3), 'bytesPerSample': (0, 4)}
def fw(n): return 64 if n in W64 else 32

class Clip:
    """symbolic input clip (or array of clips): field name -> constant/term, missing ones are arbitrary"""
    def __init__(s, name, audio=False, array=False, same=None, **f):
        s.name = name; s.audio = audio; s.f = {k: (const(v, fw(k)) if isinstance(v, int) else v) for k, v in f.items()}; s.array = array
        s.h = Region('node:' + name, 'handle', info={'clip': s})
        s.same = same         # format (and size) shared with another clip
        s.planes = {}; s.vreg = None; s.freg = Region('frames:' + name, 'handle', info={'clip': s}); s.fmtreg = None
        s.preg = Region('props:' + name, 'handle', info={'clip': s})
        s.F = var(f'FR.{name}', 64, 1, 1 << 62)
    def field(s, n, idx=Z64):
        if n in s.f:
            v = s.f[n]
            return v(idx) if callable(v) else v
        lo, hi = RANGES.get(n, (None, None))
        if isc(idx) and not s.array: return var(f'{s.name}.{n}', fw(n), lo, hi)
        return uf(f'{s.name}.{n}', fw(n), (idx,), lo, hi)

class Sym(str):
    """an arbitrary string argument (used as a property name or value); len and hint are its symbolic size and type hint"""
    def __new__(c, name):
        s = str.__new__(c, name); s.len = var(f'len.{name}', 32, 0, 1 << 20); s.hint = var(f'hint.{name}', 32, -1, 2); return s
def lit(t):
    s = Sym(t); s.len = const(len(t), 32); s.hint = None; return s
def symtext(ex, t):
    r = ex.gcache.get(('symtext', t))
    if r is None: r = ex.gcache['symtext', t] = Region(f'text:{t}', 'opaque', info={'tok': t}, ro=True)
    return r
def sat32(v):
    lo, hi = -(1 << 31), (1 << 31) - 1
    if isc(v): return const(max(lo, min(hi, scval(v))), 32)
    l, h = ivs(v)
    if l >= lo and h <= hi: return trunc(v, 32)
    if v.op == 'ite': return ite(v.a[0], sat32(v.a[1]), sat32(v.a[2]))
    return uf('sat32', 32, (v,))
class FrameObj:
    """a frame created by the filter"""
    def __init__(s): s.planes = None

class Api:
    def __init__(s, sig=None, args=None, unit=32):
        s.names = api_names(); s.vsapi = Region('vsapi', 'obj', init=s.vsapi_init, ro=True, size=8 * len(s.names))
        s.args = args or {}      # key -> list of values / Clip / ('int', count, fn) ...
        s.core = P(Region('core', 'handle')); s.ctx = P(Region('frameCtx', 'handle'))
        s.inmap = P(Region('in', 'handle')); s.outmap = P(Region('out', 'handle'))
        s.unit = unit; s.strides = {}; s.ex = None; s.filters = []; s.used = set()
        s.cpulevel = None; s.fresh = 0
        s.pattr = {}; s.sats = set(); s.propclips = {}
    def vsapi_init(s, ex, st, r, o, n, t): return P(ex.fnreg('api:' + s.names[o // 8]))
    def begin(s, ex): s.ex = ex; ex.api = s; s.ex.gcache['vsapi'] = s.vsapi
    # ------------------------------------------------ strides and planes
    def stride(s, w, es):
        """row pitch of a plane: planes with the same row size share it (contract of frame allocation)"""
        rowb = scale(zext(w, 64), es)
        A = s.strides.get(rowb)
        if A is None:
            A = s.strides[rowb] = var(f'S{len(s.strides)}', 64, 1, MAXDIM * 4 // s.unit + 1)
            S = scale(A, s.unit)
            s.ex.facts += [sle(rowb, S), slt(S, add(rowb, const(64, 64)))]
            s.ex.facts += [f for f in (implies(eq(rowb, r2), eq(A, B)) for r2, B in s.strides.items() if B is not A) if f is not TRUE]
        return A
    def bound2(s, h, A):
        S = scale(A, s.unit); H = zext(h, 64)
        def b(co, n):
            row, col = co[-2], co[-1]
            n = const(n, 64) if isinstance(n, int) else n
            return band(sle(Z64, row), slt(row, H), sle(Z64, col), sle(add(col, n), S))
        return b
    def boundA(s, n, es):
        """one audio channel: n samples plus allocation padding"""
        L = scale(zext(n, 64), es)
        def b(co, k):
            k = const(k, 64) if isinstance(k, int) else k
            return band(sle(Z64, co[-1]), sle(add(co[-1], k), L))
        return b
    def clip_plane(s, c, pl, idx):
        k = (pl, idx)
        r = c.planes.get(k)
        if r is None:
            es = s.cbytes(c)
            if c.audio:
                tag = f'{c.name}.c{pl}' if not isinstance(pl, T) else f'{c.name}.c'
                extra = (pl,) if isinstance(pl, T) else ()
                if c.array: extra = extra + (idx,)
                def init(ex, st, r, o, n, t):
                    co = decomp(o, r.strides); return uf(tag, es * 8, extra + co)
                r = Region(f'{tag}', 'arr', es=es, strides=((c.F, 1),), init=init, ro=True, info={'clip': c, 'bound': s.boundA(const(3072, 32), es)})
            else:
                w = s.pw(c, pl, idx, 'width'); h = s.pw(c, pl, idx, 'height')
                A = s.stride(w, es)
                tag = f'{c.name}.p{pl}'
                extra = (idx,) if c.array else ()
                def init(ex, st, r, o, n, t):
                    co = decomp(o, r.strides); return uf(tag, es * 8, extra + co)
                r = Region(tag, 'arr', es=es, strides=((c.F, 1), (A, s.unit)), init=init, ro=True, info={'clip': c, 'bound': s.bound2(h, A), 'w': w, 'h': h})
            c.planes[k] = r
        return r
    def cbytes(s, c):
        b = c.field('bytesPerSample')
        if not isc(b): raise Unsup('symbolic sample size')
        return b.k
    def pw(s, c, pl, idx, which):
        v = c.field(which, idx)
        if pl and not c.audio: v = ashr(v, c.field('subSamplingW' if which == 'width' else 'subSamplingH'))
        return v
    # ------------------------------------------------ handles
    def cstr(s, ex, p):
        if isinstance(p, P) and p.r.info.get('tok') is not None and isc(p.o) and p.o.k == 0: return p.r.info['tok']
        if not isinstance(p, P) or p.r.kind != 'glob' or not isc(p.o): raise Unsup(f'non-constant key {p!r}')
        c = ex.ginit(p.r); o = scval(p.o); out = bytearray()
        while True:
            x = c.get(o)
            if x is None or x[1][0] == 'zero': break
            v = int(x[1][2]) & 255 if x[1][0] == 'c' else 0
            if v == 0: break
            out.append(v); o += 1
        return out.decode('latin1')
    def node(s, p):
        if isinstance(p, PI): raise Unsup('conditional node')
        if p.r.kind != 'handle' or 'clip' not in p.r.info: raise Unsup(f'not a node {p!r}')
        return p.r.info['clip'], p.o
    def frame(s, p):
        """-> ('in', clip, idx, n) or ('new', FrameObj)"""
        if not isinstance(p, P): raise Unsup(f'frame handle {p!r}')
        if p.r.info.get('fo'): return ('new', p.r.info['fo'])
        if p.r.kind == 'handle' and 'clip' in p.r.info and p.r.name.startswith('frames:'):
            c = p.r.info['clip']
            if c.array: return ('in', c, p.r.info['idx'], p.r.info['n'])
            return ('in', c, Z64, p.o)
        raise Unsup(f'frame handle {p!r}')
    def fmtrec(s, c, audio, get):
        tab = AFMT if audio else FMT
        return tab
    def rec(s, name, tab, size, get):
        def loader(ex, st, r, o, n, t):
            c0, items = lin_of(o)
            base = sgn(c0, 64) % size
            # index part
            idx = Z64
            if items or not 0 <= sgn(c0, 64) < size:
                q = {}
                for co, x in items:
                    co = sgn(co, 64)
                    if co % size: raise Unsup(f'record offset {o}')
                    q[x] = co // size
                idx = mklin(64, sgn(c0, 64) // size, q)
            f = tab.get(base)
            if f is not None and fw(f) == n * 8: return get(f, idx)
            if f is None and n == 4: return const(0, 32)   # padding
            if n == 8 and f is not None and tab.get(base + 4) is not None: return concat(get(tab[base + 4], idx), get(f, idx))
            if n == 8 and f is not None and tab.get(base + 4) is None and fw(f) == 32: return concat(const(0, 32), get(f, idx))
            raise Unsup(f'record field {name}+{base}:{n}')
        def layout(o, n):
            return [(k, fw(f) // 8) for k, f in tab.items() if k < n]
        return Region(name, 'rec', size=size, info={'loader': loader, 'layout': layout})
    def video_info(s, c, idx):
        if c.vreg is None: c.vreg = s.rec('vi:' + c.name, AI if c.audio else VI, 48 if c.audio else 64, lambda f, i: c.field(f, i))
        return P(c.vreg, scale(idx, 48 if c.audio else 64))
    # ------------------------------------------------ frame properties (ghost)
    def props_of(s, fp):
        """map handle of a frame"""
        k = s.frame(fp)
        if k[0] == 'new': return P(k[1].props)
        c = k[1]
        if c.array:
            r = Region('props:' + c.name, 'handle', info={'clip': c, 'idx': k[2], 'n': k[3]}); return P(r)
        return P(c.preg, k[3])
    def log(s, st, r): return st.gh.get(('map', r), ())
    def prop_base(s, key, what, mp, idx=None):
        """what in count,type,int,float,data of an input frame's property"""
        c = mp.r.info['clip']; a = (mp.r.info['idx'], mp.r.info['n']) if c.array else (mp.o,)
        nm = f'{c.name}.prop.{key}'
        fixed = s.pattr.get((c.name, key))
        if what == 'count':
            return uf(nm + '#', 32, a, -1, 1 << 20)
        if what == 'type': return uf(nm + ':t', 32, a, 0, 8)
        if what == 'int': return uf(nm + '.i', 64, a + (idx,))
        if what == 'float': return uf(nm + '.f', 64, a + (idx,))
        raise Unsup(what)
    def mapget(s, st, mp, key, what, idx):
        """property lookup through the writes made so far on this map"""
        ops = s.log(st, mp.r)
        for op in reversed(ops):
            if op[0] in ('set', 'append', 'del', 'setarr', 'copyelem') and op[1] != key and (isinstance(key, Sym) or isinstance(op[1], Sym)): raise Unsup('property read after a write to a property that may be the same')
            if op[0] == 'loop': raise Unsup('property read after a loop of writes')
            if op[0] in ('setarr', 'copyelem') and op[1] == key: raise Unsup('property read after array write')
            if op[0] == 'set' and op[1] == key:
                _, k, typ, vals = op
                if what == 'count': return const(len(vals), 32)
                if what == 'type': return const({'int': 1, 'float': 2, 'data': 3}.get(typ, 3), 32)
                if isc(idx) and idx.k < len(vals):
                    if what == typ: return vals[idx.k]
                    if typ == 'int' and what == 'float': return mk('cvt', 64, (vals[idx.k],), ('s', 64, 64))
                raise Unsup('property read after write')
            if op[0] == 'append' and op[1] == key: raise Unsup('read of appended property')
            if op[0] == 'del' and op[1] == key:
                return const(-1, 32) if what == 'count' else const(0, 64 if what != 'type' else 32)
            if op[0] == 'clear': return const(-1, 32) if what == 'count' else const(0, 64 if what != 'type' else 32)
            if op[0] == 'from': return s.mapget(st, op[1], key, what, idx) if not (op[1].r.info.get('clip')) else s.prop_base(key, what, op[1], idx)
            if op[0] == 'copyall': raise Unsup('copied map')
        if 'clip' in mp.r.info: return s.prop_base(key, what, mp, idx)
        return const(-1, 32) if what == 'count' else const(0, 64 if what != 'type' else 32)
    def mapop(s, st, mp, *op):
        st.ghost(('map', mp.r), s.log(st, mp.r) + (tuple(op),))
    # ------------------------------------------------ arguments
    def argcount(s, key):
        a = s.args.get(key)
        if a is None: return const(-1, 32)
        return a['count']
    def seterr(s, ex, st, ep, v):
        if isinstance(ep, P) and ep.r is NULLR: return
        ex.store(st, ep, v, ty('i32'))
    def lookup(s, ex, st, m, key, idx, ep, kind, w):
        """value of an argument or frame property with error reporting; the caller must pass an error pointer when it may be absent"""
        if m.r is s.inmap.r:
            a = s.args.get(key)
            s.used.add(key)
            cnt = a['count'] if a is not None else const(-1, 32)
            val = (lambda i: a['get'](kind, i)) if a is not None else (lambda i: const(0, w))
            tok = TRUE
            i64_ = sext(idx, 64)
            present = band(slt(idx, cnt), sle(const(0, 32), idx))
        else:
            cnt = s.mapget(st, m, key, 'count', None); ty_ = s.mapget(st, m, key, 'type', None)
            i64_ = sext(idx, 64)
            tok = {'int': eq(ty_, const(1, 32)), 'float': bor(eq(ty_, const(2, 32)), eq(ty_, const(1, 32))), 'data': eq(ty_, const(3, 32))}[kind]
            val = lambda i: s.mapget(st, m, key, kind, i)
            present = band(slt(idx, cnt), tok)
        err = ite(slt(cnt, const(0, 32)), const(1, 32), ite(bnot(tok), const(2, 32), ite(present, const(0, 32), const(4, 32))))
        if isinstance(ep, P) and ep.r is NULLR:
            if present is not TRUE:
                ex.obl.append((f'argument {key} exists when read without an error pointer', st.pc, present))
            return val(i64_), present
        s.seterr(ex, st, ep, err)
        if isc(present): return (val(i64_) if present.k else const(0, w)), present
        return ite(present, val(i64_), const(0, w)), present
    # ------------------------------------------------ dispatch
    def __call__(s, ex, st, name, a, i):
        f = getattr(s, 'f_' + name, None)
        if f is None: raise Unsup('api ' + name)
        return f(ex, st, a, i)
    # nodes
    def f_mapGetNode(s, ex, st, a, i):
        key = s.cstr(ex, a[1]); idx = a[2]
        if a[0].r is not s.inmap.r: return P(s.elemreg('node', a[0], key, idx))
        s.used.add(key)
        x = s.args.get(key)
        if x is None:
            s.seterr(ex, st, a[3], const(1, 32)); return NULL
        cnt = x['count']; present = band(slt(idx, cnt), sle(const(0, 32), idx))
        if 'clips' in x:
            if not isc(idx): return s.split(ex, st, 'mapGetNode', a, i, [eq(idx, const(q, 32)) for q in range(len(x['clips']))])
            if present is FALSE and not (isinstance(a[3], P) and a[3].r is NULLR): s.seterr(ex, st, a[3], const(4, 32)); return NULL
            if present is not TRUE: raise Unsup('clip list index')
            h = P(x['clips'][idx.k].h); st.event('noderef', h); s.seterr(ex, st, a[3], const(0, 32)); return h
        if x.get('clip') is None and cnt is const(-1, 32) and not (isinstance(a[3], P) and a[3].r is NULLR): s.seterr(ex, st, a[3], const(1, 32)); return NULL
        h = P(x['clip'].h, sext(idx, 64)) if x['clip'].array or not isc(idx) or idx.k else P(x['clip'].h)
        st.event('noderef', h)
        if isinstance(a[3], P) and a[3].r is NULLR:
            if present is not TRUE: ex.obl.append((f'clip argument {key} exists when read without an error pointer', st.pc, present))
            return h
        s.seterr(ex, st, a[3], ite(slt(cnt, const(0, 32)), const(1, 32), ite(present, const(0, 32), const(4, 32))))
        return vite(present, h, NULL)
    def f_addNodeRef(s, ex, st, a, i):
        st.event('noderef', a[0]); return a[0]
    def f_freeNode(s, ex, st, a, i):
        if isinstance(a[0], P) and a[0].r is NULLR: return None
        st.event('nodefree', a[0]); return None
    def f_getVideoInfo(s, ex, st, a, i):
        if isinstance(a[0], PI): return vite(a[0].c, s.f_getVideoInfo(ex, st, [a[0].a], i), s.f_getVideoInfo(ex, st, [a[0].b], i))
        if a[0].r is NULLR: return NULL
        c, idx = s.node(a[0]); return s.video_info(c, idx)
    f_getAudioInfo = f_getVideoInfo
    def f_getNodeType(s, ex, st, a, i):
        c, idx = s.node(a[0]); return const(2 if c.audio else 1, 32)
    def f_createVideoFilter(s, ex, st, a, i, audio=False):
        out, nm, vi, gf, fr, mode, deps, nd, inst, core = a
        tab = AI if audio else VI
        info = {}
        for o, f in tab.items():
            if audio and f == 'numFrames': continue
            info[f] = ex.load(st, padd(vi, const(o, 64)), ty(f'i{fw(f)}'))
        dl = []
        if isc(nd):
            for k in range(scval(nd)):
                dl.append((ex.load(st, padd(deps, const(16 * k, 64)), ty('ptr')), ex.load(st, padd(deps, const(16 * k + 8, 64)), ty('i32'))))
        else: dl = (deps, nd)
        st.event('filter', tuple(sorted(info.items())), gf, fr, mode, tuple(dl), inst, audio)
        return None
    def f_createAudioFilter(s, ex, st, a, i): return s.f_createVideoFilter(ex, st, a, i, True)
    def f_setLinearFilter(s, ex, st, a, i): return const(0, 32)
    def f_setCacheMode(s, ex, st, a, i): return None
    def f_setCacheOptions(s, ex, st, a, i): return None
    def f_mapSetNode(s, ex, st, a, i):
        st.event('outnode', a[2]); return const(0, 32)
    def f_mapConsumeNode(s, ex, st, a, i):
        if isinstance(a[0], P) and a[0].r is not s.outmap.r: return s.copyelem(ex, st, a, 'node')
        st.event('outnode', a[2]); st.event('nodefree', a[2]); return const(0, 32)
    # errors
    def f_mapSetError(s, ex, st, a, i):
        st.event('error'); return None
    def f_setFilterError(s, ex, st, a, i):
        st.event('ferror'); return None
    def f_logMessage(s, ex, st, a, i):
        if isc(a[0]) and a[0].k == 4:
            ex.aborts.append(('fatal', st.pc, i.get('ln'))); st.assume(FALSE); return ('multi', [], [])
        return None
    # requests
    def fno(s, c, idx, n):
        nf = c.field('numFrames', idx)
        n = ite(slt(n, nf), n, sub(nf, const(1, 32)))
        return n
    def f_requestFrameFilter(s, ex, st, a, i):
        if isinstance(a[1], PI): return s.alts('requestFrameFilter', ex, st, a, i, 1)
        c, idx = s.node(a[1])
        ex.obl.append((f'requested frame number is not negative (line {i.get("ln")})', st.pc, sle(const(0, 32), a[0])))
        st.event('req', c, idx, a[0]); return None
    def alts(s, name, ex, st, a, i, k):
        # conditional pointer argument: one case per alternative
        outs = []; excs = []
        for c, q in pcases(a[k]):
            if not ex.feas(st, c): continue
            x = st.copy().assume(c); b = list(a); b[k] = q
            o, e = ex.norm(x, getattr(s, 'f_' + name)(ex, x, b, i)); outs += o; excs += e
        return ('multi', outs, excs)
    def f_getFrameFilter(s, ex, st, a, i):
        if isinstance(a[1], PI): return s.alts('getFrameFilter', ex, st, a, i, 1)
        c, idx = s.node(a[1])
        st.event('get', c, idx, a[0])
        nf = c.field('numFrames', idx)
        if ex.must(st, slt(a[0], nf)): n = sext(a[0], 64)
        else: n = sext(s.fno(c, idx, a[0]), 64)
        if c.array:
            return P(Region('frames:' + c.name, 'handle', info={'clip': c, 'idx': idx, 'n': n}))
        return P(c.freg, n)
    def f_releaseFrameEarly(s, ex, st, a, i): return None
    def f_freeFrame(s, ex, st, a, i):
        if isinstance(a[0], P) and a[0].r is NULLR: return None
        st.event('ffree', a[0]); return None
    def f_addFrameRef(s, ex, st, a, i):
        st.event('fref', a[0]); return a[0]
    # frames
    def newframe(s, ex, st, fmt, w, h, audio=False, planes=None, props=None, nsamples=None):
        fo = FrameObj(); s.fresh += 1
        fo.name = f'frame{s.fresh}'; fo.fmt = fmt; fo.w = w; fo.h = h; fo.audio = audio
        fo.props = Region('props:' + fo.name, 'handle'); fo.n = nsamples
        fo.fmtreg = s.rec('fmt:' + fo.name, AFMT if audio else FMT, 24 if audio else 28, lambda f, idx: fo.fmt[f])
        es = fmt['bytesPerSample']
        if not isc(es): raise Unsup('symbolic sample size')
        es = es.k
        np_ = fmt['numChannels'] if audio else fmt['numPlanes']
        if not isc(np_): raise Unsup('symbolic plane count')
        fo.planes = []
        for p in range(np_.k):
            if audio:
                r = Region(f'{fo.name}.c{p}', 'arr', es=es, info={'uninit': True, 'bound': s.boundA(const(3072, 32), es)})
                r.len = nsamples
            else:
                pw = ashr(w, fmt['subSamplingW']) if p else w
                ph = ashr(h, fmt['subSamplingH']) if p else h
                A = s.stride(pw, es)
                r = Region(f'{fo.name}.p{p}', 'arr', es=es, strides=((A, s.unit),), info={'uninit': True, 'bound': s.bound2(ph, A), 'w': pw, 'h': ph})
                r.w = pw; r.h = ph
            if planes is not None and planes[p] is not None:
                src, off = planes[p]
                r.info['uninit'] = False
                snap = ex.rs(st, src)
                def init(ex2, st2, r2, o, n, t, src=src, off=off, snap=snap, nd=len(src.strides) - len(r.strides)):
                    co = decomp(o, r2.strides)
                    so = add(off, co[-1])
                    if not audio: so = add(so, mul(co[0], scale(src.strides[-1][0], src.strides[-1][1])))
                    return ex2.read_log(st2, src, so, n, snap.log, len(snap.log) - 1)
                r.init = init
                r.info['copyof'] = (src, off)
            fo.planes.append(r)
        r = Region(fo.name, 'handle', info={'fo': fo})
        fo.h = r; fo.h_ = h
        if props is not None: st.ghost(('map', fo.props), (('from', props),))
        st.event('new', P(r))
        return P(r)
    def rdfmt(s, ex, st, p, audio=False):
        tab = AFMT if audio else FMT
        return {f: ex.load(st, padd(p, const(o, 64)), ty(f'i{fw(f)}')) for o, f in tab.items()}
    def propsrc(s, p):
        return None if p.r is NULLR else s.props_of(p)
    def dimok(s, ex, st, w, h, i):
        ex.obl.append((f'new frame dimensions are positive (line {i.get("ln")})', st.pc, band(slt(const(0, 32), w), slt(const(0, 32), h))))
        # the engine works with dimensions up to MAXDIM
        for v in (w, h):
            if not ex.must(st, band(slt(const(0, 32), v), sle(v, const(4 * MAXDIM, 32)))): pass
    def f_newVideoFrame(s, ex, st, a, i):
        fmt = s.rdfmt(ex, st, a[0]); s.dimok(ex, st, a[1], a[2], i)
        return s.newframe(ex, st, fmt, a[1], a[2], props=s.propsrc(a[3]))
    def f_newVideoFrame2(s, ex, st, a, i):
        fmt = s.rdfmt(ex, st, a[0]); s.dimok(ex, st, a[1], a[2], i)
        np_ = fmt['numPlanes']
        if not isc(np_): raise Unsup('symbolic plane count')
        alts = []
        for k in range(np_.k):
            sp = ex.load(st, padd(a[3], const(8 * k, 64)), ty('ptr'))
            ix = ex.load(st, padd(a[4], const(4 * k, 64)), ty('i32'))
            al = []
            for c, q in (pcases(sp) if isinstance(sp, PI) else [(TRUE, sp)]):
                if q.r is NULLR: al.append((c, None, None)); continue
                if isc(ix): al.append((c, q, scval(ix)))
                else: al += [(band(c, eq(ix, const(v, 32))), q, v) for v in range(3)]
            alts.append(al)
        # the frame pointers and plane indices may be symbolic: one continuation per feasible choice
        work = [(st, [])]
        for al in alts:
            nxt = []
            for x, ch in work:
                for c, q, v in al:
                    if c is TRUE: nxt.append((x, ch + [(q, v)])); continue
                    if c is FALSE or not ex.feas(x, c): continue
                    nxt.append((x.copy().assume(c), ch + [(q, v)]))
            work = nxt
        def build(x, ch):
            pl = []
            for k, (q, v) in enumerate(ch):
                if q is None: pl.append(None); continue
                r, off, pw, ph = s.plane(q, v)
                w = ashr(a[1], fmt['subSamplingW']) if k else a[1]; h = ashr(a[2], fmt['subSamplingH']) if k else a[2]
                ex.obl.append((f'plane copied into a new frame has the same size (line {i.get("ln")})', x.pc, band(eq(pw, w), eq(ph, h))))
                pl.append((r, off))
            return s.newframe(ex, x, fmt, a[1], a[2], planes=pl, props=s.propsrc(a[5]))
        if len(work) == 1 and work[0][0] is st: return build(*work[0])
        outs = []; excs = []
        for x, ch in work:
            o, e = ex.norm(x, build(x, ch)); outs += o; excs += e
        return ('multi', outs, excs)
    def split(s, ex, st, name, a, i, conds):
        outs = []; excs = []
        for c in conds:
            if not ex.feas(st, c): continue
            x = st.copy().assume(c)
            # make the choice visible to loads: substitute by re-evaluating under the assumption
            s.decided = getattr(s, 'decided', {})
            r = s.retry(ex, x, name, a, i, c)
            o, e = ex.norm(x, r)
            outs += o; excs += e
        return ('multi', outs, excs)
    def retry(s, ex, st, name, a, i, c):
        # specialise memory cells under the assumption c
        m = specialise(c)
        for r, x in list(st.mem.items()):
            ch = {}
            for o, (n, v) in x.cells.items():
                v2 = spec_val(v, m)
                if v2 is not v: ch[o] = (n, v2)
            if ch:
                y = x.copy(); y.cells.update(ch); st.mem[r] = y
        a = [spec_val(v, m) for v in a]
        st.env = {k: spec_val(v, m) for k, v in st.env.items()}
        return getattr(s, 'f_' + name)(ex, st, a, i)
    def f_newAudioFrame(s, ex, st, a, i):
        fmt = s.rdfmt(ex, st, a[0], True)
        ex.obl.append((f'new audio frame has between 1 and 3072 samples (line {i.get("ln")})', st.pc, band(slt(const(0, 32), a[1]), sle(a[1], const(3072, 32)))))
        return s.newframe(ex, st, fmt, None, None, audio=True, nsamples=a[1], props=s.propsrc(a[2]))
    def f_newAudioFrame2(s, ex, st, a, i):
        fmt = s.rdfmt(ex, st, a[0], True)
        nc = fmt['numChannels']
        if not isc(nc): raise Unsup('symbolic channel count')
        pl = []
        for k in range(nc.k):
            sp = ex.load(st, padd(a[2], const(8 * k, 64)), ty('ptr'))
            ix = ex.load(st, padd(a[3], const(4 * k, 64)), ty('i32'))
            if isinstance(sp, P) and sp.r is NULLR: pl.append(None); continue
            r, off, n, _ = s.plane(sp, scval(ix) if isc(ix) else ix)
            pl.append((r, off))
        return s.newframe(ex, st, fmt, None, None, audio=True, nsamples=a[1], planes=pl, props=s.propsrc(a[4]))
    def f_copyFrame(s, ex, st, a, i):
        k = s.frame(a[0])
        if k[0] == 'new':
            fo = k[1]; pls = [(r, Z64) for r in fo.planes]; fmt = fo.fmt; w, h = fo.w, fo.h_; ns = fo.n; au = fo.audio
        else:
            c = k[1]; au = c.audio; fmt = {f: c.field(f, k[2]) for f in (AFMT if au else FMT).values()}
            np_ = fmt['numChannels' if au else 'numPlanes']
            if not isc(np_): raise Unsup('symbolic plane count')
            pls = []
            for p in range(np_.k):
                r, off, w_, h_ = s.plane(a[0], p); pls.append((r, off))
            w, h = (None, None) if au else (c.field('width', k[2]), c.field('height', k[2])); ns = s.flen(a[0]) if au else None
        return s.newframe(ex, st, fmt, w, h, au, pls, s.props_of(a[0]), ns)
    def flen(s, fp):
        k = s.frame(fp)
        if k[0] == 'new': return k[1].n
        c = k[1]
        # min(3072, numSamples - n*3072)
        rest = sub(c.field('numSamples', k[2]), scale(k[3], 3072))
        return trunc(smin(const(3072, 64), rest), 32)
    def plane(s, fp, p):
        """(region, base offset, width|samples, height) of plane p of a frame"""
        k = s.frame(fp)
        if k[0] == 'new':
            fo = k[1]
            if isinstance(p, T): raise Unsup('symbolic plane of new frame')
            if not 0 <= p < len(fo.planes): raise Unsup(f'plane {p} of a frame with {len(fo.planes)} planes')
            r = fo.planes[p]
            return (r, Z64, fo.n, None) if fo.audio else (r, Z64, r.w, r.h)
        _, c, idx, n = k
        r = s.clip_plane(c, p, idx if c.array else Z64)
        if c.audio: return r, mul(n, c.F), s.flen(fp), None
        return r, mul(n, c.F), s.pw(c, p, idx, 'width'), s.pw(c, p, idx, 'height')
    def f_getVideoFrameFormat(s, ex, st, a, i):
        if isinstance(a[0], PI): return vite(a[0].c, s.f_getVideoFrameFormat(ex, st, [a[0].a], i), s.f_getVideoFrameFormat(ex, st, [a[0].b], i))
        k = s.frame(a[0])
        if k[0] == 'new': return P(k[1].fmtreg)
        c = k[1]
        if c.array:
            return P(s.rec('fmt:' + c.name, AFMT if c.audio else FMT, 24 if c.audio else 28, lambda f, j, idx=k[2]: c.field(f, idx)))
        if c.fmtreg is None: c.fmtreg = s.rec('fmt:' + c.name, AFMT if c.audio else FMT, 24 if c.audio else 28, lambda f, j: c.field(f))
        return P(c.fmtreg)
    f_getAudioFrameFormat = f_getVideoFrameFormat
    def f_getFrameType(s, ex, st, a, i):
        k = s.frame(a[0]); return const(2 if (k[1].audio) else 1, 32)
    def pl(s, a, ex=None, st=None):
        if isinstance(a, T) and not isc(a): return a
        return scval(a)
    def overcases(s, f, ex, st, a, i):
        """evaluate on every alternative of a conditional frame pointer"""
        if isinstance(a[0], PI):
            return vite(a[0].c, s.overcases(f, ex, st, [a[0].a] + a[1:], i), s.overcases(f, ex, st, [a[0].b] + a[1:], i))
        if len(a) > 1 and not isc(a[1]):
            k = s.frame(a[0])
            if not (k[0] == 'in' and k[1].audio):
                lo, hi = ivs(a[1]); lo = max(lo, 0); hi = min(hi, 2)
                np_ = k[1].field('numPlanes', k[2]) if k[0] == 'in' else const(len(k[1].planes), 32)
                hi = min(hi, np_.k - 1 if isc(np_) else 2)
                if hi < lo: raise Unsup('plane index')
                ex.obl.append((f'plane index in range (line {i.get("ln")})', st.pc, band(sle(const(lo, 32), a[1]), sle(a[1], const(hi, 32)))))
                r = f(s, ex, st, [a[0], const(hi, 32)], i)
                for q in range(hi - 1, lo - 1, -1): r = vite(eq(a[1], const(q, 32)), f(s, ex, st, [a[0], const(q, 32)], i), r)
                return r
        if len(a) > 1 and isc(a[1]):
            k = s.frame(a[0])
            np_ = (k[1].field('numChannels' if k[1].audio else 'numPlanes', k[2]) if k[0] == 'in' else const(len(k[1].planes), 32))
            ok = band(sle(const(0, 32), a[1]), slt(a[1], np_))
            if ok is not TRUE:
                ex.obl.append((f'plane index in range (line {i.get("ln")})', st.pc, ok))
                if ok is FALSE: st.assume(FALSE); return const(0, 64)
        return f(s, ex, st, a, i)
    def f_getStride(s, ex, st, a, i):
        def f(s, ex, st, a, i):
            r, off, w, h = s.plane(a[0], s.pl(a[1])); A, u = r.strides[-1]; return scale(A, u)
        return s.overcases(f, ex, st, a, i)
    def f_getReadPtr(s, ex, st, a, i):
        def f(s, ex, st, a, i):
            r, off, w, h = s.plane(a[0], s.pl(a[1])); return P(r, off)
        return s.overcases(f, ex, st, a, i)
    def f_getWritePtr(s, ex, st, a, i):
        def f(s, ex, st, a, i):
            k = s.frame(a[0])
            if k[0] != 'new':
                ex.obl.append((f'getWritePtr on a frame the filter does not own (line {i.get("ln")})', st.pc, FALSE)); raise Unsup('write to input frame')
            r, off, w, h = s.plane(a[0], s.pl(a[1])); return P(r, off)
        return s.overcases(f, ex, st, a, i)
    def f_getFrameWidth(s, ex, st, a, i):
        def f(s, ex, st, a, i):
            k = s.frame(a[0])
            if k[0] == 'in' and not k[1].audio and isc(a[1]): return s.pw(k[1], scval(a[1]), k[2], 'width')
            return s.plane(a[0], s.pl(a[1]))[2]
        return s.overcases(f, ex, st, a, i)
    def f_getFrameHeight(s, ex, st, a, i):
        def f(s, ex, st, a, i):
            k = s.frame(a[0])
            if k[0] == 'in' and not k[1].audio and isc(a[1]): return s.pw(k[1], scval(a[1]), k[2], 'height')
            return s.plane(a[0], s.pl(a[1]))[3]
        return s.overcases(f, ex, st, a, i)
    def f_getFrameLength(s, ex, st, a, i):
        if isinstance(a[0], PI): return vite(a[0].c, s.f_getFrameLength(ex, st, [a[0].a], i), s.f_getFrameLength(ex, st, [a[0].b], i))
        return s.flen(a[0])
    # frame properties and argument maps
    def f_getFramePropertiesRO(s, ex, st, a, i):
        return s.props_of(a[0])
    def f_getFramePropertiesRW(s, ex, st, a, i):
        k = s.frame(a[0])
        if k[0] != 'new': ex.obl.append((f'properties written on a frame the filter does not own (line {i.get("ln")})', st.pc, FALSE))
        return s.props_of(a[0])
    def f_mapNumElements(s, ex, st, a, i):
        key = s.cstr(ex, a[1])
        if a[0].r is s.inmap.r: s.used.add(key); return s.argcount(key)
        return s.mapget(st, a[0], key, 'count', None)
    def f_mapGetType(s, ex, st, a, i):
        key = s.cstr(ex, a[1])
        if a[0].r is s.inmap.r: raise Unsup('arg type')
        return s.mapget(st, a[0], key, 'type', None)
    def f_mapGetInt(s, ex, st, a, i):
        return s.lookup(ex, st, a[0], s.cstr(ex, a[1]), a[2], a[3], 'int', 64)[0]
    def f_mapGetIntSaturated(s, ex, st, a, i):
        v = s.f_mapGetInt(ex, st, a, i)
        return s.sat(v)
    def sat(s, v):
        """saturation to 32 bits, kept as a named term with its defining facts"""
        if v.op == 'ite': return ite(v.a[0], s.sat(v.a[1]), s.sat(v.a[2]))
        r = sat32(v)
        if r.op == 'uf' and r not in s.sats:
            s.sats.add(r); lo, hi = const(-(1 << 31), 64), const((1 << 31) - 1, 64)
            s.ex.facts += [implies(slt(v, lo), eq(r, trunc(lo, 32))), implies(slt(hi, v), eq(r, trunc(hi, 32))), implies(band(sle(lo, v), sle(v, hi)), eq(sext(r, 64), v))]
        return r
    def f_mapGetFloat(s, ex, st, a, i):
        return s.lookup(ex, st, a[0], s.cstr(ex, a[1]), a[2], a[3], 'float', 64)[0]
    def f_mapGetData(s, ex, st, a, i):
        key = s.cstr(ex, a[1])
        if a[0].r is not s.inmap.r: return P(s.elemreg('data', a[0], key, a[2]))
        s.used.add(key); x = s.args.get(key); t = x.get('text') if x else None
        if x and 'syms' in x:
            if not isc(a[2]): raise Unsup('string argument index')
            ok = 0 <= scval(a[2]) < len(x['syms'])
            if isinstance(a[3], P) and a[3].r is NULLR:
                if not ok: ex.obl.append((f'argument {key} exists when read without an error pointer', st.pc, FALSE)); return NULL
            else: s.seterr(ex, st, a[3], const(0 if ok else 1 if not x['syms'] else 4, 32))
            return P(symtext(ex, x['syms'][scval(a[2])])) if ok else NULL
        if x is not None and t is None and x['count'] is not const(-1, 32): raise Unsup(f'data argument {key} without contents')
        s.seterr(ex, st, a[3], const(0 if t is not None else 1, 32))
        return NULL if t is None else P(Region(f'arg.{key}', 'obj', ro=True, info={'text': t}))
    def f_mapGetDataSize(s, ex, st, a, i):
        key = s.cstr(ex, a[1]); x = s.args.get(key)
        if a[0].r is s.inmap.r and x and 'syms' in x and isc(a[2]) and 0 <= scval(a[2]) < len(x['syms']):
            s.used.add(key); s.seterr(ex, st, a[3], const(0, 32)); return x['syms'][scval(a[2])].len
        if a[0].r is s.inmap.r: raise Unsup('data size')
        return uf(f'{s.mapname(a[0])}.prop.{key}.size', 32, (a[0].o, sext(a[2], 64)), 0, 1 << 30)
    def f_mapGetDataTypeHint(s, ex, st, a, i):
        key = s.cstr(ex, a[1]); x = s.args.get(key)
        if a[0].r is s.inmap.r and x and 'syms' in x and isc(a[2]) and 0 <= scval(a[2]) < len(x['syms']):
            s.used.add(key); s.seterr(ex, st, a[3], const(0, 32)); return x['syms'][scval(a[2])].hint
        if a[0].r is s.inmap.r: raise Unsup('data hint')
        return uf(f'{s.mapname(a[0])}.prop.{key}.hint', 32, (a[0].o, sext(a[2], 64)), -1, 2)
    def mapname(s, mp):
        c = mp.r.info.get('clip')
        if c is None or c.array or s.log(s.ex and State(), mp.r): raise Unsup('property of a changed map')
        return c.name
    def elemreg(s, what, mp, key, idx):
        """an element of an input frame's property (data, node, frame or function) as an opaque handle"""
        s.mapname(mp); r = Region(f'{what}:{key}', 'handle', info={'elem': (mp.r, mp.o, key, sext(idx, 64)), 'what': what}); return r
    def f_mapGetFrame(s, ex, st, a, i):
        key = s.cstr(ex, a[1]); c = a[0].r.info.get('clip')
        if c is None or c.array: raise Unsup('frame argument')
        if isinstance(a[3], P) and a[3].r is NULLR: return P(s.elemreg('frame', a[0], key, a[2]))
        if s.log(st, a[0].r): raise Unsup('frame property of a changed map')
        cnt = s.prop_base(key, 'count', a[0]); t = s.prop_base(key, 'type', a[0]); idx = a[2]
        present = band(sle(const(0, 32), idx), slt(idx, cnt), eq(t, const(7, 32)))
        s.seterr(ex, st, a[3], ite(slt(cnt, const(0, 32)), const(1, 32), ite(ne(t, const(7, 32)), const(2, 32), ite(present, const(0, 32), const(4, 32)))))
        pc = s.propclips.get(c.name)
        if pc is None: raise Unsup('frame property without a model')
        st.event('propframe', c, a[0].o, key, idx)
        fr = P(Region('frames:' + pc.name, 'handle', info={'clip': pc, 'idx': a[0].o, 'n': Z64}))
        return s.either(ex, st, present, fr)
    def either(s, ex, st, c, v):
        """v when c holds, a null pointer otherwise, as separate cases"""
        outs = []
        for k, q in ((c, v), (bnot(c), NULL)):
            if ex.feas(st, k): outs.append((st.copy().assume(k), q))
        return ('multi', outs, [])
    def f_getFrame(s, ex, st, a, i):
        c, idx = s.node(a[1])
        ok = var(f'frame.available.{c.name}', 1); ex.obl.append(('a frame fetched during creation exists', st.pc, band(sle(const(0, 32), a[0]), slt(a[0], c.field('numFrames', idx)))))
        return s.either(ex, st, ok, P(c.freg, sext(a[0], 64)))
    def f_mapSetFrame(s, ex, st, a, i):
        key = s.cstr(ex, a[1]); s.mapwrite(ex, st, a[0], key, 'frame', a[2], a[3], i); return const(0, 32)
    def f_mapConsumeFrame(s, ex, st, a, i): return s.copyelem(ex, st, a, 'frame')
    def f_mapConsumeFunction(s, ex, st, a, i): return s.copyelem(ex, st, a, 'function')
    def copyelem(s, ex, st, a, what):
        key = s.cstr(ex, a[1]); e = a[2].r.info.get('elem') if isinstance(a[2], P) else None
        if e is None or a[2].r.info['what'] != what or not isc(a[3]): raise Unsup(f'{what} put into a map')
        s.mapop(st, a[0], 'copyelem', key, what, e, a[3].k, None); return const(0, 32)
    def f_createMap(s, ex, st, a, i):
        s.fresh += 1; return P(Region(f'map{s.fresh}', 'handle', info={'map': True}))
    def f_freeMap(s, ex, st, a, i):
        st.event('mapfree', a[0]); return None
    def f_mapGetFloatSaturated(s, ex, st, a, i):
        return mk('cvt', 32, (s.f_mapGetFloat(ex, st, a, i),), ('fptrunc', 64, 32))
    def arr(s, ex, st, a, kind):
        key = s.cstr(ex, a[1])
        if a[0].r is not s.inmap.r:
            s.mapname(a[0]); return P(Region(f'{kind}s:{key}', 'arr', es=8, ro=True, info={'proparr': (a[0].r, a[0].o, key, kind)}))
        s.used.add(key); x = s.args.get(key)
        if x is None or 'get' not in x: raise Unsup(f'array argument {key}')
        cnt = x['count']; s.seterr(ex, st, a[2], ite(slt(cnt, const(0, 32)), const(1, 32), const(0, 32)))
        if cnt is const(-1, 32): return NULL
        k = ('argarr', key); r = ex.gcache.get(k)
        if r is None:
            r = ex.gcache[k] = Region(f'arg.{key}', 'arr', es=8, ro=True, init=lambda ex, st, r, o, n, t: x['get'](kind, lshr(o, const(3, 64))))
            r.info['bound'] = lambda co, n: band(sle(Z64, co[-1]), sle(add(co[-1], const(n, 64) if isinstance(n, int) else n), mul(sext(cnt, 64), const(8, 64))))
        return P(r)
    def f_mapGetIntArray(s, ex, st, a, i): return s.arr(ex, st, a, 'int')
    def f_mapGetFloatArray(s, ex, st, a, i): return s.arr(ex, st, a, 'float')
    def f_mapGetFunction(s, ex, st, a, i):
        key = s.cstr(ex, a[1])
        if a[0].r is not s.inmap.r: return P(s.elemreg('function', a[0], key, a[2]))
        s.used.add(key); x = s.args.get(key)
        if x is not None and x['count'] is not const(-1, 32): raise Unsup('function argument')
        s.seterr(ex, st, a[3], const(1, 32)); return NULL
    def f_freeFunction(s, ex, st, a, i): return None
    def f_mapSetInt(s, ex, st, a, i):
        key = s.cstr(ex, a[1]); s.mapwrite(ex, st, a[0], key, 'int', a[2], a[3], i); return const(0, 32)
    def f_mapSetFloat(s, ex, st, a, i):
        key = s.cstr(ex, a[1]); s.mapwrite(ex, st, a[0], key, 'float', a[2], a[3], i); return const(0, 32)
    def f_mapSetIntArray(s, ex, st, a, i):
        return s.setarr(ex, st, a, 'int')
    def f_mapSetFloatArray(s, ex, st, a, i): return s.setarr(ex, st, a, 'float')
    def setarr(s, ex, st, a, kind):
        key = s.cstr(ex, a[1])
        if not isc(a[3]) or (isinstance(a[2], P) and 'proparr' in a[2].r.info): s.mapop(st, a[0], 'setarr', key, kind, a[2], a[3], st.copy()); return const(0, 32)
        if kind == 'float': raise Unsup('float array')
        vals = tuple(ex.load(st, padd(a[2], const(8 * k, 64)), ty('i64')) for k in range(scval(a[3])))
        s.mapop(st, a[0], 'set', key, 'int', vals); return const(0, 32)
    def f_mapSetData(s, ex, st, a, i):
        key = s.cstr(ex, a[1])
        if isinstance(a[2], P) and 'elem' in a[2].r.info:
            if not isc(a[5]): raise Unsup('append mode')
            s.mapop(st, a[0], 'copyelem', key, a[2].r.info['what'], a[2].r.info['elem'], a[5].k, (a[3], a[4])); return const(0, 32)
        if isinstance(a[2], P) and 'tok' in a[2].r.info: s.mapwrite(ex, st, a[0], key, 'data', (a[2].r.info['tok'], a[3], a[4]), a[5], i); return const(0, 32)
        s.mapwrite(ex, st, a[0], key, 'data', a[2], a[5], i); return const(0, 32)
    def mapwrite(s, ex, st, m, key, typ, v, mode, i):
        if not isc(mode): raise Unsup('append mode')
        if mode.k == 0: s.mapop(st, m, 'set', key, typ, (v,)); return
        ops = s.log(st, m.r)
        for k in range(len(ops) - 1, -1, -1):
            if ops[k][0] == 'set' and ops[k][1] == key:
                o = ops[k]; st.ghost(('map', m.r), ops[:k] + (('set', key, typ, o[3] + (v,)),) + ops[k + 1:]); return
        s.mapop(st, m, 'append', key, typ, (v,))
    def f_mapDeleteKey(s, ex, st, a, i):
        key = s.cstr(ex, a[1])
        try: c = s.mapget(st, a[0], key, 'count', None)
        except Unsup: c = fresh('count', 32)
        s.mapop(st, a[0], 'del', key); return zext1(sle(const(0, 32), c), 32)
    def f_clearMap(s, ex, st, a, i): s.mapop(st, a[0], 'clear'); return None
    def f_copyMap(s, ex, st, a, i): s.mapop(st, a[1], 'copyall', a[0]); return None
    def f_mapSetEmpty(s, ex, st, a, i):
        s.mapop(st, a[0], 'set', s.cstr(ex, a[1]), 'int' if isc(a[2]) else a[2], ()); return const(0, 32)
    # formats
    def f_queryVideoFormat(s, ex, st, a, i):
        f, cf, stp, bits, sw, sh = a[:6]
        ok = valid_format(cf, stp, bits, sw, sh)
        outs = []
        x = st.copy().assume(ok)
        if ex.feas(st, ok):
            lo_, hi_ = ivs(bits)
            bs = const(1, 32) if hi_ <= 8 else const(2, 32) if lo_ > 8 and hi_ <= 16 else const(4, 32) if lo_ > 16 else ite(eq(bits, const(8, 32)), const(1, 32), ite(sle(bits, const(16, 32)), const(2, 32), const(4, 32)))
            np_ = const(3, 32) if ivs(cf)[0] > 1 else ite(eq(cf, const(1, 32)), const(1, 32), const(3, 32))
            for o, v in zip(range(0, 28, 4), (cf, stp, bits, bs, sw, sh, np_)): ex.store(x, padd(f, const(o, 64)), v, ty('i32'))
            outs.append((x, const(1, 32)))
        if ex.feas(st, bnot(ok)):
            y = st.copy().assume(bnot(ok))
            for o in range(0, 28, 4): ex.store(y, padd(f, const(o, 64)), const(0, 32), ty('i32'))
            outs.append((y, const(0, 32)))
        return ('multi', outs, [])
    def f_getVideoFormatName(s, ex, st, a, i): return const(1, 32)
    def f_getAudioFormatName(s, ex, st, a, i): return const(1, 32)
    def f_queryAudioFormat(s, ex, st, a, i):
        f, stp, bits, lay = a[:4]
        ok = band(ne(lay, Z64), bor(band(eq(stp, const(0, 32)), sle(const(16, 32), bits), sle(bits, const(32, 32))), band(eq(stp, const(1, 32)), eq(bits, const(32, 32)))))
        outs = []
        if ex.feas(st, ok):
            x = st.copy().assume(ok)
            bs = ite(eq(bits, const(16, 32)), const(2, 32), const(4, 32))
            pc = uf('popcount', 32, (lay,), 1, 64)
            if isc(lay): pc = const(bin(lay.k).count('1'), 32)
            for o, v, t in ((0, stp, 'i32'), (4, bits, 'i32'), (8, bs, 'i32'), (12, pc, 'i32'), (16, lay, 'i64')): ex.store(x, padd(f, const(o, 64)), v, ty(t))
            outs.append((x, const(1, 32)))
        if ex.feas(st, bnot(ok)): outs.append((st.copy().assume(bnot(ok)), const(0, 32)))
        return ('multi', outs, [])
    def f_getCoreInfo(s, ex, st, a, i): raise Unsup('getCoreInfo')

def valid_format(cf, stp, bits, sw, sh):
    c = lambda v: const(v, 32)
    rgbgray = bor(eq(cf, c(1)), eq(cf, c(2)))
    return band(bor(eq(cf, c(1)), eq(cf, c(2)), eq(cf, c(3))),
                bor(band(eq(stp, c(0)), sle(c(8), bits), sle(bits, c(32))), band(eq(stp, c(1)), bor(eq(bits, c(16)), eq(bits, c(32))))),
                sle(c(0), sw), sle(sw, c(4)), sle(c(0), sh), sle(sh, c(4)),
                bor(bnot(rgbgray), band(eq(sw, c(0)), eq(sh, c(0)))))

def specialise(c):
    """truth values of atoms implied by c"""
    m = {}
    def go(x, v):
        if x.op == 'not': go(x.a[0], not v); return
        m[x] = TRUE if v else FALSE
        if x.op == 'and' and x.w == 1 and v:
            for y in x.a: go(y, True)
        if x.op == 'eq' and v:
            a, b = x.a
            if isc(b) and not isc(a): m[a] = b
            elif isc(a) and not isc(b): m[b] = a
    go(c, True)
    return m
def spec_val(v, m):
    if isinstance(v, PI):
        c = subst_term(v.c, m)
        if c is TRUE: return spec_val(v.a, m)
        if c is FALSE: return spec_val(v.b, m)
        return v
    if isinstance(v, T):
        if v in m: return m[v]
        if v.op == 'ite' and v.a[0] in m: return spec_val(v.a[1] if m[v.a[0]] is TRUE else v.a[2], m)
    return v
def subst_term(c, m):
    if c in m: return m[c]
    if c.op == 'not':
        r = subst_term(c.a[0], m); return bnot(r)
    return c
