"""Discharging obligations: hyps |= goal, with a portfolio of solvers and encodings."""
import time, subprocess, tempfile, os, shutil, threading
import z3
from term import *

STATS = {'obligations': 0, 'discharged': 0, 'by': {}, 'time': 0.0, 'queries': 0}
_z3c = {}

class BVEnc:
    """exact bit-vector encoding; uninterpreted symbols for uf / float operators"""
    abstract = False; absdiv = False
    def __init__(s): s.m = {}; s.ranges = []; s.fn = {}; s.dv = {}
    def divf(s, op, w):
        k = ('div', op, w); f = s.fn.get(k)
        if f is None: f = s.fn[k] = z3.Function(f'{op}{w}', z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        return f
    def __call__(s, t):
        r = s.m.get(t)
        if r is not None: return r
        st = [t]
        while st:
            x = st[-1]
            if x in s.m: st.pop(); continue
            todo = [y for y in x.a if y not in s.m]
            if todo: st.extend(todo); continue
            st.pop(); s.m[x] = s.enc(x, [s.m[y] for y in x.a])
        return s.m[t]
    def enc(s, t, a):
        op = t.op; w = t.w
        if op == 'c': return z3.BoolVal(bool(t.k)) if w == 1 else z3.BitVecVal(t.k, w)
        if op == 'v':
            n, lo, hi = t.k
            if w == 1: return z3.Bool(f'{n}')
            x = z3.BitVec(f'{n}!{w}', w)
            if lo is not None: s.ranges.append(x >= z3.BitVecVal(lo & mask(w), w))
            if hi is not None: s.ranges.append(x <= z3.BitVecVal(hi & mask(w), w))
            return x
        if op == 'lin':
            c, cs = t.k; r = None
            for co, x in zip(cs, a):
                if co == 1: y = x
                else: y = x * z3.BitVecVal(co, w)
                r = y if r is None else r + y
            return r + z3.BitVecVal(c, w) if c else r
        if op == 'mul':
            r = a[0]
            for x in a[1:]: r = s.divf('mul', w)(r, x) if s.absdiv and w > 8 else r * x
            return r
        if w == 1 and op == 'and': return z3.And(*a)
        if op == 'not': return z3.Not(a[0])
        if op == 'xor' and w == 1: return z3.Xor(a[0], a[1])
        if op == 'and': return a[0] & a[1]
        if op == 'or': return a[0] | a[1]
        if op == 'xor': return a[0] ^ a[1]
        if op == 'eq': return a[0] == a[1]
        if op == 'ult': return z3.ULT(a[0], a[1])
        if op == 'slt': return a[0] < a[1]
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op == 'ext':
            if w == 1: return z3.Extract(t.k[0], t.k[1], a[0]) == z3.BitVecVal(1, 1)
            return z3.Extract(t.k[0], t.k[1], a[0])
        if op == 'zext':
            if t.a[0].w == 1: return z3.If(a[0], z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return z3.ZeroExt(w - t.a[0].w, a[0])
        if op == 'sext': return z3.SignExt(w - t.a[0].w, a[0])
        if op == 'concat':
            b = [z3.If(y, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if x.w == 1 else y for x, y in zip(t.a, a)]
            return z3.Concat(*b)
        if op == 'shl': return a[0] << a[1]
        if op == 'lshr': return z3.LShR(a[0], a[1])
        if op == 'ashr': return a[0] >> a[1]
        if op in ('udiv', 'urem'):
            if t.a[1].op == 'c' and t.a[1].k:
                # exact: n = q*d + r without wrap-around, r < d
                k = t.a[1].k; pr = s.dv.get((t.a[0], k))
                if pr is None:
                    q = z3.BitVec(f'q!{t.a[0].id}!{k}', w); r = z3.BitVec(f'r!{t.a[0].id}!{k}', w); pr = s.dv[(t.a[0], k)] = (q, r)
                    s.ranges += [a[0] == q * z3.BitVecVal(k, w) + r, z3.ULT(r, z3.BitVecVal(k, w)), z3.ULE(q, z3.BitVecVal(mask(w) // k, w)), z3.ULE(q * z3.BitVecVal(k, w), a[0])]
                    if k == 1: s.ranges.append(r == 0)
                return pr[0] if op == 'udiv' else pr[1]
            if s.absdiv:
                f = s.divf(op, w)(a[0], a[1]); nz = a[1] != 0
                if op == 'udiv': s.ranges += [z3.Implies(nz, z3.ULE(f, a[0])), z3.Implies(z3.ULT(a[0], a[1]), f == 0), z3.Implies(z3.And(nz, z3.UGE(a[0], a[1])), z3.UGE(f, z3.BitVecVal(1, w)))]
                else: s.ranges += [z3.Implies(nz, z3.ULT(f, a[1])), z3.ULE(f, a[0])]
                return f
            return z3.UDiv(a[0], a[1]) if op == 'udiv' else z3.URem(a[0], a[1])
        if op in ('sdiv', 'srem'):
            if s.absdiv:
                f = s.divf(op, w)(a[0], a[1]); pos = z3.And(a[0] >= 0, a[1] > 0)
                if op == 'sdiv': s.ranges += [z3.Implies(pos, z3.And(f >= 0, f <= a[0])), z3.Implies(z3.And(pos, a[0] < a[1]), f == 0), z3.Implies(z3.And(pos, a[0] >= a[1]), f >= 1)]
                else: s.ranges += [z3.Implies(pos, z3.And(f >= 0, f < a[1], f <= a[0]))]
                return f
            return a[0] / a[1] if op == 'sdiv' else z3.SRem(a[0], a[1])
        if op == 'tbl':
            r = z3.BitVecVal(t.k[-1], w)
            for i in range(len(t.k) - 2, -1, -1): r = z3.If(a[0] == i, z3.BitVecVal(t.k[i], w), r)
            return r
        if op in ('sum', 'fold'):
            return z3.BitVec(f'{op}!{t.id}', w) if w > 1 else z3.Bool(f'{op}!{t.id}')
        if s.abstract and op == 'uf':
            r = z3.BitVec(f'ufa!{t.id}', w) if w > 1 else z3.Bool(f'ufa!{t.id}')
        else:
            name = f'{op}:{t.k}' if t.k is not None else op
            key = (name, w, tuple(x.w for x in t.a))
            f = s.fn.get(key)
            if f is None:
                so = [z3.BoolSort() if x.w == 1 else z3.BitVecSort(x.w) for x in t.a]
                f = s.fn[key] = z3.Function(str(key), *so, z3.BoolSort() if w == 1 else z3.BitVecSort(w))
            if op in ('fadd', 'fmul') and len(a) == 2: a = [z3.If(z3.ULE(a[0], a[1]), a[0], a[1]), z3.If(z3.ULE(a[0], a[1]), a[1], a[0])] if not a[0].eq(a[1]) else a
            r = f(*a)
        if op == 'uf' and isinstance(t.k, tuple):
            n, lo, hi = t.k
            if lo is not None: s.ranges.append(r >= z3.BitVecVal(lo & mask(w), w))
            if hi is not None: s.ranges.append(r <= z3.BitVecVal(hi & mask(w), w))
        return r

class BVAbs(BVEnc):
    """same, but distinct uninterpreted-function terms are unrelated symbols (weaker hypotheses)"""
    abstract = True

class BVDiv(BVEnc):
    """same, with division and multiplication of two symbolic values uninterpreted (weaker hypotheses)"""
    absdiv = True

_HARD = ('udiv', 'urem', 'sdiv', 'srem', 'mul')
def _hard(t): return t.op in _HARD and t.a[1].op != 'c' and t.w > 8

class Unsupported(Exception): pass

class IntEnc:
    """integer encoding: every term is its signed value; wrap-around made explicit"""
    def __init__(s): s.m = {}; s.side = []; s.n = 0; s.fn = {}
    def __call__(s, t):
        st = [t]
        while st:
            x = st[-1]
            if x in s.m: st.pop(); continue
            todo = [y for y in x.a if y not in s.m]
            if todo: st.extend(todo); continue
            st.pop(); s.m[x] = s.enc(x, [s.m[y] for y in x.a])
        return s.m[t]
    def qr(s, kind, t):
        k = (kind, t.a[0], t.a[1]); x = s.m.get(k)
        if x: return x[0], x[1], False
        s.m[k] = (s.fi('q'), s.fi('r')); return s.m[k][0], s.m[k][1], True
    def fi(s, p='k'):
        s.n += 1; return z3.Int(f'{p}!{s.n}')
    def wrap(s, e, w, lo=None, hi=None):
        """signed w-bit value of the mathematical integer e"""
        F = full(w)
        if lo is not None and lo >= F[0] and hi <= F[1]: return e
        k = s.fi(); r = s.fi('w')
        s.side += [r == e - k * (1 << w), r >= F[0], r <= F[1]]
        return r
    def uns(s, t, e):
        if ivs(t)[0] >= 0: return e
        return z3.If(e < 0, e + (1 << t.w), e)
    def enc(s, t, a):
        op = t.op; w = t.w
        if w == 1:
            if op == 'c': return z3.BoolVal(bool(t.k))
            if op == 'v': return z3.Bool(t.k[0])
            if op == 'and': return z3.And(*a)
            if op == 'not': return z3.Not(a[0])
            if op == 'xor': return z3.Xor(*a)
            if op == 'eq': return a[0] == a[1]
            if op == 'slt': return a[0] < a[1]
            if op == 'ult': return s.uns(t.a[0], a[0]) < s.uns(t.a[1], a[1])
            if op == 'ite': return z3.If(*a)
            if op in ('ext',):
                e = s.uns(t.a[0], a[0]); q = s.fi(); r = s.fi(); b = s.fi()
                s.side += [e == q * (1 << (t.k[1] + 1)) + b * (1 << t.k[1]) + r, r >= 0, r < (1 << t.k[1]), b >= 0, b <= 1]
                return b == 1
            return s.ufn(t, a)
        if op == 'c': return z3.IntVal(scval(t))
        if op == 'v':
            x = z3.Int(f'{t.k[0]}!{w}'); lo, hi = ivs(t); s.side += [x >= lo, x <= hi]; return x
        if op == 'lin':
            c, cs = t.k; lo = hi = sgn(c, w); e = z3.IntVal(sgn(c, w))
            for co, x, y in zip(cs, t.a, a):
                co = sgn(co, w); l, h = ivs(x)
                lo += co * (l if co >= 0 else h); hi += co * (h if co >= 0 else l)
                e = e + (y if co == 1 else co * y)
            if not (lo >= full(w)[0] and hi <= full(w)[1]):
                ul, uh = ivu(t)
                # exact as an unsigned sum?
                if _lin_exact_u(t):
                    u = z3.IntVal(sgn(c, w))
                    for co, x, y in zip(cs, t.a, a): u = u + sgn(co, w) * s.uns(x, y)
                    return z3.If(u >= (1 << (w - 1)), u - (1 << w), u)
            return s.wrap(e, w, lo, hi)
        if op == 'mul':
            e = a[0]; lo, hi = ivs(t.a[0])
            for x, y in zip(t.a[1:], a[1:]):
                l, h = ivs(x); c = (lo * l, lo * h, hi * l, hi * h); lo, hi = min(c), max(c); e = e * y
            return s.wrap(e, w, lo, hi)
        if op == 'ite': return z3.If(*a)
        if op == 'zext':
            if t.a[0].w == 1: return z3.If(a[0], z3.IntVal(1), z3.IntVal(0))
            return s.uns(t.a[0], a[0])
        if op == 'sext': return a[0]
        if op == 'ext':
            hi, lo = t.k; x = t.a[0]; e = a[0]; l, h = ivs(x)
            if lo:
                q = s.fi(); r = s.fi()
                s.side += [e == q * (1 << lo) + r, r >= 0, r < (1 << lo)]
                e = q; l >>= lo; h >>= lo
            return s.wrap(e, w, l, h)
        if op == 'concat':
            if t.a[0].w == 1 or t.a[1].w == 1: raise Unsupported('concat1')
            return a[0] * (1 << t.a[1].w) + s.uns(t.a[1], a[1])
        if op in ('udiv', 'urem'):
            n = s.uns(t.a[0], a[0]); d = s.uns(t.a[1], a[1])
            q, r, new = s.qr('u', t)
            if new: s.side += [z3.Implies(d > 0, z3.And(n == q * d + r, r >= 0, r < d)), z3.Implies(d == 0, z3.And(q == -1, r == n))]
            e = q if op == 'udiv' else r; lo, hi = ivu(t)
            # q,r are in [0,2^w)
            if hi <= full(w)[1]: return e
            return z3.If(e >= (1 << (w - 1)), e - (1 << w), e)
        if op in ('sdiv', 'srem'):
            n, d = a; q, r, new = s.qr('s', t)
            if new: s.side += [z3.Implies(d != 0, z3.And(n == q * d + r, z3.If(n >= 0, r >= 0, r <= 0), z3.If(d > 0, z3.And(r < d, r > -d), z3.And(r < -d, r > d))))]
            if op == 'sdiv' and not (ivs(t.a[0])[0] > full(w)[0] or ivs(t.a[1])[0] > 0): return s.wrap(q, w)
            return q if op == 'sdiv' else r
        if op == 'tbl':
            r = z3.IntVal(sgn(t.k[-1], w)); 
            for i in range(len(t.k) - 2, -1, -1): r = z3.If(a[0] == i, z3.IntVal(sgn(t.k[i], w)), r)
            return r
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'): raise Unsupported(op)
        return s.ufn(t, a)
    def ufn(s, t, a):
        if t.op in ('sum', 'fold'):
            if t.w == 1: return z3.Bool(f'{t.op}!{t.id}')
            x = z3.Int(f'{t.op}!{t.id}'); lo, hi = ivs(t); s.side += [x >= lo, x <= hi]; return x
        key = (t.op, str(t.k), t.w, tuple(x.w for x in t.a))
        f = s.fn.get(key)
        if f is None:
            so = [z3.BoolSort() if x.w == 1 else z3.IntSort() for x in t.a]
            f = s.fn[key] = z3.Function('uf' + str(len(s.fn)), *so, z3.BoolSort() if t.w == 1 else z3.IntSort())
        if t.op in ('fadd', 'fmul') and len(a) == 2 and not a[0].eq(a[1]): a = [z3.If(a[0] <= a[1], a[0], a[1]), z3.If(a[0] <= a[1], a[1], a[0])]
        r = f(*a)
        if t.w > 1:
            lo, hi = ivs(t); s.side += [r >= lo, r <= hi]
        return r
from term import _lin_exact_u

def _is_uf(x): return x.op in ('uf',) or x.op in ('fadd', 'fmul', 'fdiv', 'fsqrt', 'flt', 'feq', 'funo', 'fneg', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'cvt')

def relevant(hyps, goal):
    """drop hypotheses that share no symbol with the goal (transitively)"""
    def syms(t):
        return frozenset(fv(t)) | frozenset(x for x in atoms(t, lambda y: y.op == 'uf'))
    hs = [(h, syms(h)) for h in hyps if h is not TRUE]
    cur = set(syms(goal)); out = []; ch = True
    while ch:
        ch = False
        for p in list(hs):
            if not p[1] or p[1] & cur:
                out.append(p[0]); cur |= p[1]; hs.remove(p); ch = True
    return out

_cache = {}; _intern = {}
def canon_key(ts):
    """structural key of the query with variables and uninterpreted atoms numbered in order"""
    m = {}; names = {}
    out = []
    def go(t):
        r = m.get(t)
        if r is not None: return r
        if t.op == 'v':
            names.setdefault(t, len(names)); r = ('v', names[t], t.w, t.k[1], t.k[2])
        elif t.op == 'uf' :
            names.setdefault(t, len(names)); r = ('u', names[t], t.w, t.k[1:] if isinstance(t.k, tuple) else None)
        else:
            ch = tuple(go(x) for x in t.a)
            if t.op in ('and', 'xor', 'or', 'mul', 'eq', 'fadd', 'fmul'): pass
            r = (t.op, t.w, t.k, ch)
        key = m[t] = _intern.setdefault(r, len(_intern))
        return key
    # note: order inside commutative operators follows term ids; good enough for a cache
    return tuple(go(t) for t in ts), tuple((t.w, t.k) if t.op == 'v' else (t.w,) for t in names)

class Res:
    def __init__(s, status, backend='', model=None, t=0.0, reason=''):
        s.status = status; s.backend = backend; s.model = model; s.time = t; s.reason = reason
    def __repr__(s): return f'Res({s.status},{s.backend},{s.time:.2f}s)'

def z3check(enc, hyps, goal, timeout, want_model=False):
    e = enc()
    fs = [e(h) for h in hyps]; g = e(goal)
    s = z3.SolverFor('QF_UFBV') if enc is not IntEnc else z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for f in (e.ranges if enc is not IntEnc else e.side): s.add(f)
    for f in fs: s.add(f)
    s.add(z3.Not(g))
    if enc is IntEnc:
        for f in e.side: s.add(f)
    r = s.check()
    if r == z3.sat and want_model:
        m = s.model(); md = {}
        for t, x in e.m.items():
            if isinstance(t, tuple): continue
            if t.op == 'v' or t.op == 'uf':
                v = m.eval(x, model_completion=True)
                try: md[t] = (1 if z3.is_true(v) else 0) if t.w == 1 else v.as_long() & mask(t.w)
                except Exception: pass
        return r, md, s
    return r, None, s

def external(s, timeout):
    """race external provers over the same query text; returns (status, name)"""
    txt = '(set-logic ALL)\n' + s.to_smt2()
    d = tempfile.mkdtemp(prefix='vq'); p = os.path.join(d, 'q.smt2')
    open(p, 'w').write(txt)
    cmds = {'cvc5': ['cvc5', f'--tlimit={int(timeout*1000)}', p], 'z3-4.8': ['z3', f'-T:{int(timeout)}', p], 'z3-new': ['z3-new', f'-T:{int(timeout)}', 'sat.euf=true', p]}
    if 'BitVec' in txt and 'Int' not in txt: cmds['cvc5-int'] = ['cvc5', f'--tlimit={int(timeout*1000)}', '--solve-bv-as-int=sum', p]
    cmds.pop('z3-new', None)
    ps = {n: subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for n, c in cmds.items()}
    t0 = time.time(); res = ('unknown', 'timeout')
    live = dict(ps)
    while live and time.time() - t0 < timeout + 2:
        for n, q in list(live.items()):
            if q.poll() is not None:
                o = q.stdout.read().split(); live.pop(n)
                if o and o[0] in ('unsat', 'sat'): res = (o[0], n); live_break = True; break
        else:
            time.sleep(0.02); continue
        break
    for q in ps.values():
        if q.poll() is None: q.kill()
        q.wait()
    shutil.rmtree(d, ignore_errors=True)
    return res

def prove(goal, hyps=(), timeout=20, name='', generalise=True, count=True, quick=False, first=None):
    """Is goal implied by hyps?  proved / refuted (with a model) / unknown"""
    t0 = time.time()
    def done(st, by, model=None, reason=''):
        dt = time.time() - t0
        if count:
            STATS['obligations'] += 1; STATS['time'] += dt
            if st == 'proved': STATS['discharged'] += 1
            STATS['by'][by] = STATS['by'].get(by, 0) + 1
        return Res(st, by, model, dt, reason)
    if goal is TRUE: return done('proved', 'simplifier')
    hyps = [h for h in hyps if h is not TRUE]
    if any(h is FALSE for h in hyps): return done('proved', 'simplifier')
    hs = set(hyps)
    if goal in hs: return done('proved', 'simplifier')
    # split conjunctions
    if goal.op == 'and' and goal.w == 1:
        by = set()
        for g in goal.a:
            r = prove(g, hyps, timeout, name, generalise, False, quick, first)
            by.add(r.backend)
            if r.status != 'proved': return done(r.status, r.backend, r.model, r.reason)
        return done('proved', max(by))
    rh = relevant(hyps, goal)
    try:
        ck = canon_key([goal] + sorted(rh, key=lambda x: x.id))
    except RecursionError:
        ck = None
    if ck is not None and ck in _cache: return done('proved', _cache[ck] + ' (cached)' if not _cache[ck].endswith(')') else _cache[ck])
    STATS['queries'] += 1
    def ok(by):
        return done('proved', by)
    if first == 'int':
        try:
            if z3check(IntEnc, rh, goal, min(timeout, 10), False)[0] == z3.unsat: return done('proved', 'z3-int')
        except Unsupported: pass
    if any(atoms(h, _hard) for h in [goal] + list(rh)):
        r, md, s = z3check(BVDiv, rh, goal, min(timeout, 3), False)
        if r == z3.unsat: return done('proved', 'z3-bv')
        try:
            r, md, s = z3check(IntEnc, rh, goal, min(timeout, 5), False)
            if r == z3.unsat: return done('proved', 'z3-int')
        except Unsupported: pass
    nuf = len(atoms(goal, lambda y: y.op == 'uf'))
    if nuf:
        r, md, s = z3check(BVAbs, rh, goal, min(timeout, 3), False)
        if r == z3.unsat:
            if ck is not None: _cache[ck] = 'z3-bv'
            return done('proved', 'z3-bv')
    r, md, s = z3check(BVEnc, rh, goal, min(timeout, 3), True)
    if r == z3.unsat:
        if ck is not None and not nuf and not any(atoms(h, lambda y: y.op == 'uf') for h in rh): _cache[ck] = 'z3-bv'
        return done('proved', 'z3-bv')
    if r == z3.sat: return done('refuted', 'z3-bv', md)
    if quick: return done('unknown', 'z3-bv')
    try:
        r2, md2, s2 = z3check(IntEnc, rh, goal, min(timeout, 5), False)
        if r2 == z3.unsat: return ok('z3-int')
    except Unsupported: s2 = None
    st, by = external(s, timeout)
    if st == 'unsat': return ok(by)
    if st == 'sat': 
        r, md, s = z3check(BVEnc, rh, goal, timeout, True)
        return done('refuted', by, md)
    if s2 is not None:
        st, by = external(s2, timeout)
        if st == 'unsat': return ok(by + '-int')
    return done('unknown', 'timeout', None, 'solver timeout')

_fcache = {}
FEAS_INT = False     # try the integer encoding first (modules whose conditions are linear sums over unbounded lengths)
def feasible(pc, timeout=2):
    """False only if the conjunction is definitely unsatisfiable"""
    p = band(*pc)
    if p is TRUE: return True
    if p is FALSE: return False
    r = _fcache.get(p)
    if r is None and FEAS_INT:
        try:
            st, _, _ = z3check(IntEnc, [p], FALSE, timeout, False); STATS['queries'] += 1
            if st == z3.unsat: r = _fcache[p] = False
            elif st == z3.sat: r = _fcache[p] = True
        except Unsupported: pass
    if r is None:
        st, _, _ = z3check(BVDiv if atoms(p, _hard) else BVEnc, [p], FALSE, timeout)
        r = _fcache[p] = st != z3.unsat
        STATS['queries'] += 1
    return r
def implied(c, pc, timeout=2):
    if c is TRUE: return True
    if c is FALSE: return not feasible(pc, timeout)
    rh = relevant(pc, c)
    return not feasible(tuple(rh) + (bnot(c),), timeout)
