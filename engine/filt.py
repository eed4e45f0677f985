"""Running a built-in filter's real create and getFrame functions under the API contracts."""
import re
from term import *
from exec import *
from api import *
import stdlib, build

class Reg:
    def __init__(s, name, sig, fn, data): s.name = name; s.sig = sig; s.fn = fn; s.data = data
    def args(s):
        out = []
        for p in s.sig.split(';'):
            if p and ':' in p:
                q = p.split(':'); out.append((q[0], q[1], q[2:]))
        return out

STOPS = stdlib.STOP + [r'^halfToFloat\(', r'^floatToHalf\(', r'^vs_get_cpulevel', r'^vsh::(reduceRational|muldivRational)\(', r'^videoFormatToName', r'^videoInfoToString', r'^invalidVideoFormatMessage', r'^std::(__cxx11::)?basic_o?stringstream.*', r'^mismatchToText', r'^.*std::operator<<.*', r'^std::(__cxx11::)?basic_ostringstream']

class FilterMod:
    """one filter source file; create functions are discovered through the real registration code"""
    def __init__(s, src, init, stops=(), extra=(), march='x86-64', contracts=()):
        s.src = src; s.mod = build.module(src, [init, r'^[A-Za-z_:]+::operator<\('], tuple(STOPS) + tuple(stops), march=march, extra=tuple(extra))
        s.contracts = list(contracts) + FCONTRACTS + stdlib.CONTRACTS
        s.regs = {}
        ex = Exec(s.mod, s.contracts); s.ex0 = ex
        api = Api(); api.begin(ex)
        names = api_names('VSPLUGINAPI')
        tbl = Region('vspapi', 'obj', init=lambda ex, st, r, o, n, t: P(ex.fnreg('api:plug_' + names[o // 8])), ro=True)
        def reg(ex, st, a, i):
            sg = [api.cstr(ex, a[k]) for k in (0, 1, 2)]
            s.regs[sg[0]] = Reg(sg[0], sg[1], a[3].r.name if isinstance(a[3], P) and a[3].r.kind == 'fn' else None, a[4]); return const(1, 32)
        api.f_plug_registerFunction = reg
        api.f_plug_configPlugin = lambda ex, st, a, i: const(1, 32)
        n = [f for f in s.mod.find(init)]
        if not n: raise Unsup(f'no initialisation function {init} in {src}')
        nargs = len(s.mod.fn(n[0]).args) if hasattr(s.mod.fn(n[0]), 'args') else 2
        outs, exc = ex.call(n[0], [P(Region('plugin', 'handle')), P(tbl)], State())

def optint(name, lo=None, hi=None, opt=True):
    b = var(f'has.{name}', 1) if opt else TRUE
    v = var(f'arg.{name}', 64, lo, hi)
    return {'count': ite(b, const(1, 32), const(-1, 32)), 'get': lambda k, i: v, 'has': b, 'val': v}
def optfloat(name, opt=True):
    b = var(f'has.{name}', 1) if opt else TRUE
    v = var(f'arg.{name}', 64)
    return {'count': ite(b, const(1, 32), const(-1, 32)), 'get': lambda k, i: v, 'has': b, 'val': v}
def intlist(name, k, lo=None, hi=None):
    vs = [var(f'arg.{name}{j}', 64, lo, hi) for j in range(k)]
    def get(kind, i):
        if isc(i): return vs[i.k] if i.k < k else const(0, 64)
        r = vs[-1] if vs else const(0, 64)
        for j in range(k - 2, -1, -1): r = ite(eq(i, const(j, i.w)), vs[j], r)
        return r
    return {'count': const(k, 32), 'get': get, 'vals': vs, 'has': TRUE if k else FALSE}
def fixed(*v):
    """concrete argument values"""
    vs = [const(x, 64) for x in v]
    def get(kind, i):
        if isc(i): return vs[i.k] if i.k < len(vs) else const(0, 64)
        r = vs[-1] if vs else const(0, 64)
        for j in range(len(vs) - 2, -1, -1): r = ite(eq(i, const(j, i.w)), vs[j], r)
        return r
    return {'count': const(len(vs) or -1, 32), 'get': get, 'vals': vs, 'has': TRUE if vs else FALSE, 'val': vs[0] if vs else None}
def text(t):
    """a concrete string argument"""
    return {'count': const(1, 32), 'text': t.encode() if isinstance(t, str) else t, 'get': lambda k, i: const(0, 64), 'has': TRUE}
def clipargs(*clips):
    """one or several node arguments (concrete count)"""
    return {'count': const(len(clips), 32), 'clips': clips, 'clip': clips[0] if clips else None}

class Outcome:
    def __init__(s, st, kind, **k): s.st = st; s.kind = kind; s.__dict__.update(k)

class Run:
    """create + getFrame of one registered function for one family of arguments"""
    def __init__(s, fm, name, args, unroll=12, extra=None, unit=None, cpu=None):
        unit = unit or (64 if cpu == 3 else 32)
        s.fm = fm; s.reg = fm.regs.get(name)
        if s.reg is None: raise Unsup(f'function {name} is not registered')
        if s.reg.fn is None: raise Unsup('create function')
        full_ = {}
        for an, at, fl in s.reg.args():
            base = at.replace('[]', '')
            if an in args: full_[an] = args[an]; continue
            if base == 'int': full_[an] = optint(an, opt='opt' in fl)
            elif base == 'float': full_[an] = optfloat(an, opt='opt' in fl)
            elif 'opt' in fl: full_[an] = {'count': const(-1, 32), 'get': lambda k, i: const(0, 64), 'has': FALSE}
            else: raise Unsup(f'argument {an}:{at} without a model')
            if '[]' in at: raise Unsup(f'array argument {an} without a model')
        s.args = full_
        s.api = Api(args=full_, unit=unit); s.api.cpulevel = cpu
        s.ex = Exec(fm.mod, fm.contracts, s.api, unroll=unroll); s.api.begin(s.ex)
        st = State()
        for c in extra or (): st.assume(c)
        outs, excs = s.ex.call(s.reg.fn, [s.api.inmap, s.api.outmap, s.reg.data if s.reg.data is not None else NULL, s.api.core, P(s.api.vsapi)], st)
        s.outs = []
        for x, _ in outs:
            if FALSE in x.pc: continue
            k = [e[0] for e in x.ev]
            if 'error' in k: s.outs.append(Outcome(x, 'error', also=[e for e in x.ev if e[0] in ('filter', 'outnode')]))
            elif 'filter' in k:
                e = [e for e in x.ev if e[0] == 'filter'][0]
                s.outs.append(Outcome(x, 'filter', vi=dict(e[1]), gf=e[2], free=e[3], mode=e[4], deps=e[5], inst=e[6], audio=e[7]))
            elif 'outnode' in k:
                e = [e for e in x.ev if e[0] == 'outnode']
                s.outs.append(Outcome(x, 'pass', nodes=[y[1] for y in e]))
            else: s.outs.append(Outcome(x, 'nothing'))
        for x in excs: s.outs.append(Outcome(x, 'exception'))
    def frame(s, o, n, extra=()):
        """getFrame of outcome o for frame n -> list of FrameRes"""
        st = o.st.copy(); st.ev = (); 
        st.assume(sle(const(0, 32), n)).assume(slt(n, o.vi['numFrames'] if not o.audio else s.audioframes(o)))
        for c in extra: st.assume(c)
        if not isinstance(o.gf, P) or o.gf.r.kind != 'fn': raise Unsup('getFrame pointer')
        fd = Region('frameData', 'obj', size=32, init=lambda ex, st, r, o_, n_, t: NULL if t is not None and t.k == 'p' else const(0, 8 * n_))
        fd.info['local'] = True
        res = []
        def go(st, phase, reqs):
            args = [n, const(0 if phase == 0 else 1, 32), o.inst, P(fd), s.api.ctx, s.api.core, P(s.api.vsapi)]
            outs, excs = s.ex.call(o.gf.r.name, args, st)
            for x in excs: res.append(FrameRes(x, None, 'exception', reqs))
            for x, v in outs:
                if FALSE in x.pc: continue
                if any(e[0] == 'ferror' for e in x.ev): res.append(FrameRes(x, v, 'error', reqs)); continue
                if isinstance(v, P) and v.r is NULLR:
                    if phase == 0:
                        go(x, 1, len(x.ev))
                    else: res.append(FrameRes(x, v, 'null', reqs))
                elif isinstance(v, PI):
                    for c, q in pcases(v):
                        if s.ex.feas(x, c): res.append(FrameRes(x.copy().assume(c), q, 'frame' if q.r is not NULLR else 'null', reqs))
                else: res.append(FrameRes(x, v, 'frame', reqs))
        go(st, 0, 0)
        return res
    def audioframes(s, o):
        ns = o.vi['numSamples']
        return trunc(udiv(add(ns, const(3071, 64)), const(3072, 64)), 32)
class FrameRes:
    def __init__(s, st, v, kind, nreq): s.st = st; s.v = v; s.kind = kind; s.nreq = nreq

# contracts on helpers verified on their own elsewhere
def c_muldiv(ex, st, a, i, dem):
    num = ex.load(st, a[0], ty('i64')); den = ex.load(st, a[1], ty('i64'))
    ex.store(st, a[0], uf('muldiv.num', 64, (num, den, a[2], a[3])), ty('i64'))
    ex.store(st, a[1], uf('muldiv.den', 64, (num, den, a[2], a[3])), ty('i64'))
    return None
def c_reduce(ex, st, a, i, dem):
    num = ex.load(st, a[0], ty('i64')); den = ex.load(st, a[1], ty('i64'))
    ex.store(st, a[0], uf('reduce.num', 64, (num, den)), ty('i64'))
    ex.store(st, a[1], uf('reduce.den', 64, (num, den)), ty('i64'))
    return None
def c_cpulevel(ex, st, a, i, dem):
    return const(ex.api.cpulevel or 0, 32)
def c_cpufeat(ex, st, a, i, dem):
    ex.assumptions.add('the CPU reports every feature; the selected level decides which kernels run')
    r = ex.gcache.get('cpufeat')
    if r is None: r = ex.gcache['cpufeat'] = Region('cpufeatures', 'obj', init=lambda ex, st, r, o, n, t: const(int.from_bytes(b'\1' * n, 'little'), 8 * n), ro=True)
    return P(r)
def c_h2f(ex, st, a, i, dem):
    ex.assumptions.add('halfToFloat converts exactly and floatToHalf rounds to a nearest half (checked exhaustively by the half-conversion task of P05)')
    return mk('cvt', 32, (a[0],), 'fromhalf')
def c_f2h(ex, st, a, i, dem): return mk('cvt', 16, (a[0],), 'half.sw')
FCONTRACTS = [(re.compile(rx), h) for rx, h in [
    (r'^vs_get_cpulevel', c_cpulevel), (r'^getCPUFeatures', c_cpufeat), (r'^halfToFloat\(', c_h2f), (r'^floatToHalf\(', c_f2h),
    (r'^vsh::muldivRational\(', c_muldiv), (r'^vsh::reduceRational\(', c_reduce),
    (r'^videoFormatToName|^videoInfoToString|^invalidVideoFormatMessage|^mismatchToText', stdlib.c_string),
    (r'^std::(__cxx11::)?basic_o?stringstream|std::operator<<|^std::(__cxx11::)?basic_ostream|^std::ostream', stdlib.c_string),
]]
