"""Hash-consed bit-vector terms with a normalising constructor for every operator.

Every term has a width w (bits).  Booleans have width 1.  Floats are carried as
their bit patterns; float arithmetic is uninterpreted (ops named f*), with
commutativity normalised and fma(a,b,c) read as a*b+c.
"""
import math, struct, sys
sys.setrecursionlimit(100000)

class T:
    __slots__ = ('op', 'w', 'a', 'k', 'id', '_iv', '_fv', '_lin')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id

_tab = {}
def mk(op, w, a=(), k=None):
    key = (op, w, tuple(x.id for x in a), k)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.w = w; t.a = tuple(a); t.k = k; t.id = len(_tab) + 1
        t._iv = None; t._fv = None; t._lin = None
        _tab[key] = t
    return t

def show(t, d=0):
    if t.op == 'c': return str(sgn(t.k, t.w) if t.w > 1 else t.k)
    if t.op == 'v': return t.k[0] if isinstance(t.k, tuple) else str(t.k)
    if d > 12: return '...'
    if t.op == 'lin':
        c, cs = t.k
        ps = []
        for co, a in zip(cs, t.a):
            co = sgn(co, t.w)
            ps.append(('' if co == 1 else '-' if co == -1 else f'{co}*') + show(a, d + 1))
        if c: ps.append(str(sgn(c, t.w)))
        return '(' + ' + '.join(ps) + ')'
    if t.op == 'ext': return f'{show(t.a[0], d+1)}[{t.k[0]}:{t.k[1]}]'
    if t.op in ('zext', 'sext'): return f'{t.op}{t.w}({show(t.a[0], d+1)})'
    return t.op + ('' if t.k is None else f'<{t.k}>') + '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'

def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
def mask(w): return (1 << w) - 1

_vc = [0]
def var(name, w, lo=None, hi=None):
    """A variable with an optional declared signed range (a precondition)."""
    return mk('v', w, (), (name, lo, hi))
def fresh(name, w, lo=None, hi=None):
    _vc[0] += 1
    return var(f'{name}#{_vc[0]}', w, lo, hi)
def const(v, w): return mk('c', w, (), v & mask(w))
TRUE = const(1, 1); FALSE = const(0, 1)
def isc(t): return t.op == 'c'
def cval(t): return t.k
def scval(t): return sgn(t.k, t.w)

# ---------------------------------------------------------------- intervals
def ivs(t):
    """signed interval of t (sound under declared variable ranges)"""
    r = t._iv
    if r is None:
        r = t._iv = _ivs(t)
    return r
def full(w): return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
def ivu(t):
    """unsigned interval"""
    lo, hi = ivs(t)
    if lo >= 0: return (lo, hi)
    if hi < 0: return (lo + (1 << t.w), hi + (1 << t.w))
    if t.op in ('zext',):
        return ivu(t.a[0])
    if t.op == 'ite':
        a = ivu(t.a[1]); b = ivu(t.a[2]); return (min(a[0], b[0]), max(a[1], b[1]))
    if t.op == 'and':
        return (0, min(ivu(x)[1] for x in t.a))
    if t.op in ('lshr', 'udiv'):
        return (0, ivu(t.a[0])[1] if not (t.op == 'udiv' and isc(t.a[1]) and t.a[1].k) else ivu(t.a[0])[1] // t.a[1].k)
    if t.op == 'lin':
        c, cs = t.k
        lo, hi = c, c
        for co, a in zip(cs, t.a):
            l, h = ivu(a); lo += co * l; hi += co * h
        if hi < (1 << t.w): return (lo, hi)
    if t.op == 'mul':
        p = 1; q = 1
        for a in t.a:
            l, h = ivu(a); p *= h; q *= l
        if p < (1 << t.w): return (q, p)
    return (0, (1 << t.w) - 1)
def _ivs(t):
    w = t.w; F = full(w); op = t.op
    if op == 'c': v = scval(t); return (v, v)
    if op == 'v':
        n, lo, hi = t.k
        return (F[0] if lo is None else max(lo, F[0]), F[1] if hi is None else min(hi, F[1]))
    if op == 'uf' and isinstance(t.k, tuple):
        n, lo, hi = t.k
        return (F[0] if lo is None else max(lo, F[0]), F[1] if hi is None else min(hi, F[1]))
    if op == 'lin':
        c, cs = t.k
        lo = hi = sgn(c, w)
        for co, a in zip(cs, t.a):
            co = sgn(co, w); l, h = ivs(a)
            if co >= 0: lo += co * l; hi += co * h
            else: lo += co * h; hi += co * l
        if lo >= F[0] and hi <= F[1]: return (lo, hi)
        return F
    if op == 'mul':
        lo = hi = 1
        for a in t.a:
            l, h = ivs(a)
            c = (lo * l, lo * h, hi * l, hi * h); lo, hi = min(c), max(c)
        if lo >= F[0] and hi <= F[1]: return (lo, hi)
        return F
    if op == 'zext': return ivu(t.a[0])
    if op == 'sext': return ivs(t.a[0])
    if op == 'ite':
        a = ivs(t.a[1]); b = ivs(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'ext':
        x = t.a[0]
        if t.k[1] == 0:
            a = ivs(x)
            if a[0] >= F[0] and a[1] <= F[1]: return a
        else:
            a = ivu(x); lo = a[0] >> t.k[1]; hi = a[1] >> t.k[1]
            if hi <= F[1]: return (lo, hi)
            a = ivs(x); lo = a[0] >> t.k[1]; hi = a[1] >> t.k[1]
            if t.k[0] == x.w - 1 and lo >= F[0] and hi <= F[1]: return (lo, hi)
        return F
    if op in ('udiv', 'lshr'):
        a = ivu(t.a[0])
        hi = a[1]; lo = 0
        if isc(t.a[1]) and t.a[1].k:
            if op == 'udiv': hi //= t.a[1].k; lo = a[0] // t.a[1].k
            elif t.a[1].k < w: hi >>= t.a[1].k; lo = a[0] >> t.a[1].k
        return (lo, hi) if hi <= F[1] else F
    if op == 'urem':
        if isc(t.a[1]) and t.a[1].k and t.a[1].k - 1 <= F[1]: return (0, t.a[1].k - 1)
        b = ivu(t.a[1]); a = ivu(t.a[0])
        hi = min(a[1], max(b[1] - 1, 0)) if b[0] > 0 else a[1]
        return (0, hi) if hi <= F[1] else F
    if op == 'sdiv':
        a = ivs(t.a[0]); b = ivs(t.a[1])
        if b[0] > 0:
            def q(x, y): return -((-x) // y) if x < 0 else x // y
            cs = [q(x, y) for x in a for y in b]; return (min(cs), max(cs))
        return F
    if op == 'srem':
        a = ivs(t.a[0]); b = ivs(t.a[1])
        m = max(abs(b[0]), abs(b[1])) - 1
        return (max(-m, min(a[0], 0)), min(m, max(a[1], 0)))
    if op == 'ashr':
        a = ivs(t.a[0])
        if isc(t.a[1]) and t.a[1].k < w: return (a[0] >> t.a[1].k, a[1] >> t.a[1].k)
        return (min(a[0], 0), max(a[1], 0))
    if op == 'and':
        hs = [ivs(x) for x in t.a]
        nn = [h[1] for h in hs if h[0] >= 0]
        if nn: return (0, min(nn))
        return F
    if op == 'or':
        hs = [ivs(x) for x in t.a]
        if all(h[0] >= 0 for h in hs):
            m = max(h[1] for h in hs); return (max(h[0] for h in hs), min(F[1], (1 << m.bit_length()) - 1))
        return F
    if op == 'concat':
        a = ivs(t.a[0]); lw = t.w - t.a[0].w
        return (a[0] << lw, (a[1] << lw) + mask(lw))
    if op == 'tbl':
        vs = [sgn(v, w) for v in t.k]
        return (min(vs), max(vs))
    return F

# ---------------------------------------------------------------- linear forms
def lin_of(t):
    r = t._lin
    if r is None:
        if t.op == 'c': r = (t.k, ())
        elif t.op == 'lin': r = (t.k[0], tuple(zip(t.k[1], t.a)))
        else: r = (0, ((1, t),))
        t._lin = r
    return r
def tz(t):
    """number of low bits known to be zero"""
    op = t.op
    if op == 'c': return t.w if not t.k else (t.k & -t.k).bit_length() - 1
    if op == 'lin':
        c, cs = t.k; r = t.w if not c else (c & -c).bit_length() - 1
        for co, a in zip(cs, t.a):
            if r == 0: break
            r = min(r, (co & -co).bit_length() - 1 + tz(a))
        return min(r, t.w)
    if op == 'mul': return min(t.w, sum(tz(a) for a in t.a))
    if op in ('zext', 'sext'): return tz(t.a[0])
    if op == 'concat':
        l = tz(t.a[1]); return l if l < t.a[1].w else l + tz(t.a[0])
    if op == 'ite' and t.w > 1: return min(tz(t.a[1]), tz(t.a[2]))
    return 0
def _shifted(a, co):
    """co * a, where a extends bits [hi:k] of X: equal to m * X modulo 2^w: (X, m)"""
    if a.op in ('zext', 'sext') and a.a[0].op == 'ext':
        e = a.a[0]; X = e.a[0]; hi, k = e.k; w = a.w
        if X.w == w and (hi == w - 1 and k or hi < w - 1) and tz(X) >= k and co % (1 << (k + w - 1 - hi)) == 0: return X, co >> k
    if a.op in ('zext', 'sext') and a.a[0].op == 'lin' and co % (1 << (a.w - a.a[0].w)) == 0:
        L = a.a[0]; r = const(L.k[0], a.w)
        for c_, x in zip(L.k[1], L.a): r = add(r, scale(zext(x, a.w), c_))
        return r, co
    return None
def mklin(w, c, d):
    M = mask(w); c &= M
    for a, co in d.items():
        if a.op in ('zext', 'sext') and co & M:
            q = _shifted(a, co & M)
            if q:
                d = dict(d); del d[a]; ca, la = lin_of(q[0]); co = q[1]
                for co2, x in la: d[x] = d.get(x, 0) + co * co2
                return mklin(w, c + ca * co, d)
    items = [(co & M, a) for a, co in d.items() if co & M]
    if not items: return const(c, w)
    if c == 0 and len(items) == 1 and items[0][0] == 1: return items[0][1]
    items.sort(key=lambda p: p[1].id)
    t = mk('lin', w, tuple(a for _, a in items), (c, tuple(co for co, _ in items)))
    return _recombine(t)
def _recombine(t):
    return t
def add(a, b):
    if a.w == 1: return bxor(a, b)
    assert a.w == b.w, (a, b, a.w, b.w)
    ca, la = lin_of(a); cb, lb = lin_of(b)
    if not la and not ca: return b
    if not lb and not cb: return a
    d = {x: co for co, x in la}
    for co, x in lb: d[x] = d.get(x, 0) + co
    return mklin(a.w, ca + cb, d)
def scale(a, k):
    if k & mask(a.w) == 1: return a
    if a.w == 1: return a if k & 1 else FALSE
    ca, la = lin_of(a)
    return mklin(a.w, ca * k, {x: co * k for co, x in la})
def neg(a): return scale(a, -1)
def sub(a, b): return add(a, neg(b)) if a.w > 1 else bxor(a, b)
MUL_HOOK = []      # (factor, other factor -> product term): that product becomes a named term
def mul(a, b):
    for d, f in MUL_HOOK:
        if a is d or b is d:
            r = f(b if a is d else a)
            if r is not None: return r
    if a.w == 1: return band(a, b)
    if isc(a): return scale(b, a.k)
    if isc(b): return scale(a, b.k)
    ca, la = lin_of(a); cb, lb = lin_of(b)
    if len(la) * len(lb) > 64:
        return mk('mul', a.w, tuple(sorted((a, b), key=lambda x: x.id)))
    w = a.w; d = {}
    for co, x in la:
        if cb: d[x] = d.get(x, 0) + co * cb
        for co2, y in lb:
            fs = (list(x.a) if x.op == 'mul' else [x]) + (list(y.a) if y.op == 'mul' else [y])
            fs.sort(key=lambda z: z.id)
            m = mk('mul', w, tuple(fs)); d[m] = d.get(m, 0) + co * co2
    if ca:
        for co2, y in lb: d[y] = d.get(y, 0) + co2 * ca
    return mklin(w, ca * cb, d)

# ---------------------------------------------------------------- booleans
def bnot(a):
    if a.op == 'c': return FALSE if a.k else TRUE
    if a.op == 'not': return a.a[0]
    return mk('not', 1, (a,))
def band(*xs):
    s = set(); out = []
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == 'and' and x.w == 1: st.extend(x.a[::-1]); continue
        if x in s: continue
        s.add(x); out.append(x)
    for x in out:
        if bnot(x) in s: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    # absorption: a & (b | ..) with a literal of the or present
    o2 = []
    ch = False
    for x in out:
        if x.op == 'not' and x.a[0].op == 'and':
            ls = [y for y in x.a[0].a]
            if any(bnot(y) in s for y in ls): ch = True; continue
            keep = [y for y in ls if y not in s]
            if len(keep) != len(ls): o2.append(bnot(band(*keep))); ch = True; continue
        o2.append(x)
    if ch: return band(*o2)
    out.sort(key=lambda x: x.id)
    return mk('and', 1, tuple(out))
def bor(*xs): return bnot(band(*[bnot(x) for x in xs]))
def implies(a, b): return bor(bnot(a), b)
def bxor(a, b):
    if isc(a): return bnot(b) if a.k else b
    if isc(b): return bnot(a) if b.k else a
    if a is b: return FALSE
    if a is bnot(b): return TRUE
    na = a.op == 'not'; nb = b.op == 'not'
    x = a.a[0] if na else a; y = b.a[0] if nb else b
    if x.id > y.id: x, y = y, x
    r = mk('xor', 1, (x, y))
    return bnot(r) if na != nb else r

def eq(a, b):
    if a is b: return TRUE
    assert a.w == b.w, (a.w, b.w, a, b)
    if a.w == 1: return bnot(bxor(a, b))
    if isc(a) and isc(b): return FALSE
    la, ha = ivs(a); lb, hb = ivs(b)
    if ha < lb or hb < la: return FALSE
    if isc(b): a, b = b, a
    if isc(a):
        if b.op in ('zext', 'sext'):
            x = b.a[0]; v = a.k
            lo = v & mask(x.w)
            if b.op == 'zext': return eq(x, const(lo, x.w)) if lo == v else FALSE
            return eq(x, const(lo, x.w)) if (sgn(lo, x.w) & mask(b.w)) == v else FALSE
        if b.op == 'ite':
            c, x, y = b.a
            if isc(x) or isc(y): return bor(band(c, eq(a, x)), band(bnot(c), eq(a, y)))
        if b.op == 'concat':
            w2 = b.a[1].w
            return band(eq(const(a.k >> w2, b.a[0].w), b.a[0]), eq(const(a.k, w2), b.a[1]))
    if a.op == b.op and a.op in ('zext', 'sext') and a.a[0].w == b.a[0].w: return eq(a.a[0], b.a[0])
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if isc(d): return TRUE if d.k == 0 else FALSE
        l, h = ivs(d)
        # d computed mod 2^w: its interval is only valid if no wrap, which ivs guarantees
        if l > 0 or h < 0: return FALSE
        c, items = lin_of(d)
        # split into positive and negative sides
        pos = {}; ng = {}
        w = a.w
        if sgn(items[0][0], w) < 0:
            c = -c; items = tuple((-co, x) for co, x in items)
        if len(items) == 1 and (items[0][0] & mask(w)) & 1:
            # odd coefficient: invertible
            inv = pow(items[0][0] & mask(w), -1, 1 << w)
            a2, b2 = items[0][1], const(-c * inv, w)
            if a2.op in ('zext', 'sext', 'concat'): return eq(a2, b2)
            return _mkeq(a2, b2)
        for co, x in items:
            s = sgn(co & mask(w), w)
            if s > 0: pos[x] = s
            else: ng[x] = -s
        l = mklin(w, 0, pos); r = mklin(w, -c, ng)
        g = sgn(-c & mask(w), w)
        for co, _ in items: g = math.gcd(g, sgn(co & mask(w), w))
        if g > 1 and (l.op != 'lin' or _lin_exact_s(l)) and (r.op != 'lin' or _lin_exact_s(r)):
            # no wrap on either side: the common factor cancels
            return eq(mklin(w, 0, {x: v // g for x, v in pos.items()}), mklin(w, sgn(-c & mask(w), w) // g, {x: v // g for x, v in ng.items()}))
        return _mkeq(l, r)
    return _mkeq(a, b)
def _mkeq(a, b):
    if a is b: return TRUE
    if isc(a) and isc(b): return FALSE
    la, ha = ivs(a); lb, hb = ivs(b)
    if ha < lb or hb < la: return FALSE
    if a.id > b.id: a, b = b, a
    return mk('eq', 1, (a, b))
def ne(a, b): return bnot(eq(a, b))

def _cmpext(op, a, b):
    return None
def ult(a, b):
    if a is b: return FALSE
    if a.w == 1: return band(bnot(a), b)
    la, ha = ivu(a); lb, hb = ivu(b)
    if ha < lb: return TRUE
    if la >= hb: return FALSE
    # both non-negative in the signed sense: use slt as the canonical form
    if ivs(a)[0] >= 0 and ivs(b)[0] >= 0: return slt(a, b)
    if isc(b):
        if b.k == 1: return eq(a, const(0, a.w))
        if a.op == 'zext':
            x = a.a[0]
            return ult(x, const(b.k, x.w)) if b.k <= mask(x.w) else TRUE
    if isc(a):
        if a.k == mask(a.w): return FALSE
        if b.op == 'zext':
            x = b.a[0]
            return ult(const(a.k, x.w), x) if a.k <= mask(x.w) else FALSE
        return bnot(ult(b, const(a.k + 1, a.w)))
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return ult(a.a[0], b.a[0])
    if isc(b) and b.k == 0: return FALSE
    return mk('ult', 1, (a, b))
def slt(a, b):
    if a is b: return FALSE
    if a.w == 1: return band(a, bnot(b))
    la, ha = ivs(a); lb, hb = ivs(b)
    if ha < lb: return TRUE
    if la >= hb: return FALSE
    w = a.w
    if isc(a):
        if a.k == mask(w) >> 1: return FALSE
        return bnot(slt(b, const(a.k + 1, w)))
    if isc(b):
        v = scval(b)
        if a.op == 'sext':
            x = a.a[0]; F = full(x.w)
            if v > F[1]: return TRUE
            if v <= F[0]: return FALSE
            return slt(x, const(v, x.w))
        if a.op == 'zext':
            x = a.a[0]
            if v <= 0: return FALSE
            if v > mask(x.w): return TRUE
            return ult(x, const(v, x.w))
        if v == lb and la == v - 1 and False: pass
        if la == v - 1: return eq(a, const(v - 1, w))
        if ha == v: return bnot(eq(a, b))
        if a.op == 'lin':
            c, items = lin_of(a); c = sgn(c, w)
            if c and ivs(a) != full(w):
                # no wrap in a: move the constant across when that cannot wrap either
                base = mklin(w, 0, {x: co for co, x in items})
                bl = ivs(base); F = full(w)
                if F[0] <= v - c <= F[1] and bl != full(w): return slt(base, const(v - c, w))
            if not c and len(items) == 1:
                k = sgn(items[0][0], w); x = items[0][1]
                l, h = ivs(x); F = full(w)
                if k > 1 and F[0] <= l * k and h * k <= F[1]:
                    return slt(x, const(-((-v) // k), w))
                if k < 0 and F[0] <= h * k and l * k <= F[1]:
                    # k*x < v  <=>  x > v/k  (k<0)  <=> (-k)x > -v <=> x >= floor(-v/(-k))+1
                    return bnot(slt(x, const((-v) // (-k) + 1, w)))
    elif a.op in ('sext', 'zext') and b.op == a.op and a.a[0].w == b.a[0].w:
        return slt(a.a[0], b.a[0]) if a.op == 'sext' else ult(a.a[0], b.a[0])
    else:
        # a < b with a-b not wrapping: decide by the interval of the difference
        da = ivs(a); db = ivs(b)
        if da[0] - db[1] >= full(w)[0] and da[1] - db[0] <= full(w)[1] and (a.op == 'lin' or b.op == 'lin'):
            d = sub(a, b)
            l, h = ivs(d)
            if h < 0: return TRUE
            if l >= 0: return FALSE
            # canonical: positive part < negative part + const
            c, items = lin_of(d); c = sgn(c, w)
            pos = {}; ng = {}
            for co, x in items:
                s = sgn(co, w)
                if s > 0: pos[x] = s
                else: ng[x] = -s
            if (pos or ng):
                L = mklin(w, 0, pos); R = mklin(w, -c, ng)
                F = full(w)
                if ng and pos:
                    # both sides must be wrap free
                    if _nowrap(pos, 0, w) and _nowrap(ng, -c, w):
                        return mk('slt', 1, (L, R)) if not isc(L) and not isc(R) else slt(L, R)
    return mk('slt', 1, (a, b))
def _nowrap(d, c, w):
    lo = hi = c
    for x, s in d.items():
        l, h = ivs(x); lo += s * l; hi += s * h
    F = full(w)
    return lo >= F[0] and hi <= F[1]
def ule(a, b): return bnot(ult(b, a))
def sle(a, b): return bnot(slt(b, a))
def sgt(a, b): return slt(b, a)
def sge(a, b): return bnot(slt(a, b))

OPT = {'fminmax': False}
def ite(c, a, b):
    if isc(c): return a if c.k else b
    if a is b: return a
    if c.op == 'not': c, a, b = c.a[0], b, a
    if c.op == 'flt' and OPT['fminmax'] and c.a[0].w == a.w:   # a < b ? a : b and a < b ? b : a, kept as single operators
        if c.a[0] is a and c.a[1] is b: return mk('fltmin', a.w, (a, b))
        if c.a[0] is b and c.a[1] is a: return mk('fltmax', a.w, (b, a))
    if a.w == 1:
        if isc(a): return bor(c, b) if a.k else band(bnot(c), b)
        if isc(b): return bor(bnot(c), a) if b.k else band(c, a)
        if a is c: return bor(c, b)
        if b is c: return band(c, a)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    # ite(c, a, ite(d, a, e)) -> ite(c|d, a, e)
    if b.op == 'ite' and b.a[1] is a: return ite(bor(c, b.a[0]), a, b.a[2])
    if b.op == 'ite' and b.a[2] is a: return ite(bor(c, bnot(b.a[0])), a, b.a[1])
    if a.op == 'ite' and a.a[1] is b: return ite(band(c, bnot(a.a[0])), a.a[2], b)
    if a.op == 'ite' and a.a[2] is b: return ite(band(c, a.a[0]), a.a[1], b)
    return mk('ite', a.w, (c, a, b))

# ---------------------------------------------------------------- bit level
def ext(t, hi, lo):
    if lo == 0 and hi == t.w - 1: return t
    n = hi - lo + 1
    op = t.op
    if op == 'c': return const(t.k >> lo, n)
    if op == 'ext': return ext(t.a[0], t.k[1] + hi, t.k[1] + lo)
    if op == 'concat':
        h, l = t.a
        if hi < l.w: return ext(l, hi, lo)
        if lo >= l.w: return ext(h, hi - l.w, lo - l.w)
        return concat(ext(h, hi - l.w, 0), ext(l, l.w - 1, lo))
    if op == 'zext':
        x = t.a[0]
        if hi < x.w: return ext(x, hi, lo)
        if lo >= x.w: return const(0, n)
        return zext(ext(x, x.w - 1, lo), n)
    if op == 'sext':
        x = t.a[0]
        if hi < x.w: return ext(x, hi, lo)
        if lo < x.w: return sext(ext(x, x.w - 1, lo), n)
        return sext(ext(x, x.w - 1, x.w - 1), n) if x.w > 1 else sext(x, n)
    if op == 'ite':
        a, b = t.a[1], t.a[2]
        return ite(t.a[0], ext(a, hi, lo), ext(b, hi, lo))
    if lo == 0:
        if op == 'lin':
            c, cs = t.k; r = const(c, n)
            for co, x in zip(cs, t.a): r = add(r, scale(ext(x, hi, 0), co))
            return r
        if op == 'mul':
            r = ext(t.a[0], hi, 0)
            for x in t.a[1:]: r = mul(r, ext(x, hi, 0))
            return r
    if op == 'lin':
        # constant times 2^j: bits below are zero
        c, cs = t.k
        if c == 0 and len(cs) == 1:
            co = cs[0]; z = (co & -co).bit_length() - 1
            if z and lo >= z and co == (1 << z):
                x = t.a[0]
                if hi - z < x.w: 
                    # (x << z)[hi:lo] = x[hi-z:lo-z]
                    return ext(x, hi - z, lo - z)
    if op == 'lin' and lo > 0 and t.k == (mask(t.w), (mask(t.w),)):   # -x - 1 is the bitwise complement
        return sub(const(-1, n), ext(t.a[0], hi, lo))
    if op == 'lin' and lo > 0:
        # every coefficient a multiple of 2^z: the low z bits are those of the constant
        c, cs = t.k; z = lo
        for co in cs: z = min(z, (co & -co).bit_length() - 1)
        if z > 0:
            r = const(c >> z, t.w - z)
            for co, x in zip(cs, t.a): r = add(r, scale(ext(x, t.w - z - 1, 0), co >> z))
            return ext(r, hi - z, lo - z)
    if op == 'lin' and lo > 0:
        # multiples of 2^lo plus a part that stays below 2^lo: no carry into the upper bits
        c, cs = t.k; m = 1 << lo; low = c % m; hi_ = 0; L = []; H = []
        for co, x in zip(cs, t.a):
            if co % m == 0: H.append((co >> lo, x))
            elif (l := ivu(x))[1] * co < m: low += l[1] * co; L.append(x)
            else: low = m; break
        if low < m and H and L:
            r = const(c >> lo, t.w - lo)
            for co, x in H: r = add(r, scale(ext(x, t.w - lo - 1, 0), co))
            return ext(r, hi - lo, 0)
    if op == 'lin' and lo >= 8:
        # multiplication by a rounded reciprocal followed by a shift is a division
        r = _magic(t, lo)
        if r is not None: return ext(r, hi - lo, 0)
    if op in ('and', 'or', 'xor') and t.w > 1:
        f = {'and': and_, 'or': or_, 'xor': xor}[op]
        r = ext(t.a[0], hi, lo)
        for x in t.a[1:]: r = f(r, ext(x, hi, lo))
        return r
    if n == 1 and hi == t.w - 1: return slt(t, const(0, t.w))
    if lo > 0:
        # value known to fit: bits above are sign copies
        l, h = ivu(t)
        if h >> lo == l >> lo: return const(h >> lo, n)
    return mk('ext', n, (t,), (hi, lo))
def _magic(t, k):
    """t >> k == x / d when t = M*x, M = ceil(2^k / d) and x*(M*d - 2^k) < 2^k over the range of x (no wrap-around)"""
    w = t.w; c, cs = t.k; sc = [sgn(q, w) for q in cs]; c = sgn(c, w)
    M = abs(c)
    for q in sc: M = math.gcd(M, abs(q))
    if M < 3 or M & (M - 1) == 0: return None
    x = const(c // M, w)
    for q, y in zip(sc, t.a): x = add(x, scale(y, q // M))
    l, h = ivu(x)
    if h * M > mask(w): return None
    d = -(-(1 << k) // M)
    if d < 2: return None
    e = M * d - (1 << k)
    if h * e < (1 << k): return udiv(x, const(d, w))
    return None
def trunc(t, n): return ext(t, n - 1, 0)
def concat(h, l):
    if isc(h) and isc(l): return const((h.k << l.w) | l.k, h.w + l.w)
    if isc(h) and h.k == 0: return zext(l, h.w + l.w)
    if h.op == 'ext' and l.op == 'ext' and h.a[0] is l.a[0] and h.k[1] == l.k[0] + 1:
        return ext(h.a[0], h.k[0], l.k[1])
    if h.op == 'ext' and h.a[0] is l and False: pass
    if h.op == 'ext' and h.k[1] == l.w and ext(h.a[0], l.w - 1, 0) is l: return ext(h.a[0], h.k[0], 0)
    if l.op == 'concat' and h.op == 'ext' and l.a[0].op == 'ext' and h.a[0] is l.a[0].a[0] and h.k[1] == l.a[0].k[0] + 1:
        return concat(concat(h, l.a[0]), l.a[1])
    if h.op == 'concat' and h.a[1].op == 'ext' and l.op == 'ext' and h.a[1].a[0] is l.a[0] and h.a[1].k[1] == l.k[0] + 1:
        return concat(h.a[0], concat(h.a[1], l))
    return mk('concat', h.w + l.w, (h, l))
def zext(t, n):
    if n == t.w: return t
    assert n > t.w, (t, n)
    if isc(t): return const(t.k, n)
    if t.op == 'zext': return zext(t.a[0], n)
    if t.w > 1:
        l, h = ivs(t)
        if t.op == 'lin':
            if l >= 0 and _lin_exact_s(t):   # sum exact in signed reading
                return _distr(t, n, sext_)
            if _lin_exact_u(t): return _distr(t, n, zext)
        if t.op == 'mul' :
            p = 1
            for a in t.a: p *= ivu(a)[1]
            if p <= mask(t.w):
                r = zext(t.a[0], n)
                for a in t.a[1:]: r = mul(r, zext(a, n))
                return r
        if t.op == 'ite': return ite(t.a[0], zext(t.a[1], n), zext(t.a[2], n))
        if l >= 0 and t.op == 'sext': return sext(t.a[0], n)
        if t.op == 'ext' and t.k[1] == 0 and t.a[0].w == n:
            lo, hi = ivu(t.a[0])
            if hi <= mask(t.w): return t.a[0]
        if t.op == 'ext' and t.k[1] == 0 and t.a[0].w > n:
            lo, hi = ivu(t.a[0])
            if hi <= mask(t.w): return ext(t.a[0], n - 1, 0)
    return mk('zext', n, (t,))
def _lin_exact_s(t):
    if t.op != 'lin': return True
    F = full(t.w)
    c, cs = t.k; lo = hi = sgn(c, t.w)
    for co, x in zip(cs, t.a):
        co = sgn(co, t.w); l, h = ivs(x)
        if co >= 0: lo += co * l; hi += co * h
        else: lo += co * h; hi += co * l
    return lo >= F[0] and hi <= F[1]
def _lin_exact_u(t):
    c, cs = t.k; lo = hi = sgn(c, t.w)
    for co, x in zip(cs, t.a):
        co = sgn(co, t.w); l, h = ivu(x)
        if co >= 0: lo += co * l; hi += co * h
        else: lo += co * h; hi += co * l
    return lo >= 0 and hi <= mask(t.w)
def _distr(t, n, f):
    c, cs = t.k; r = const(sgn(c, t.w), n)
    for co, x in zip(cs, t.a): r = add(r, scale(f(x, n), sgn(co, t.w)))
    return r
def sext_(t, n): return sext(t, n)
def sext(t, n):
    if n == t.w: return t
    if isc(t): return const(scval(t), n)
    if t.op == 'sext': return sext(t.a[0], n)
    if t.op == 'zext': return zext(t.a[0], n)
    if t.w > 1:
        if t.op == 'lin' and _lin_exact_s(t): return _distr(t, n, sext_)
        if t.op == 'mul':
            F = full(t.w); lo = hi = 1
            for a in t.a:
                l, h = ivs(a); c = (lo * l, lo * h, hi * l, hi * h); lo, hi = min(c), max(c)
            if lo >= F[0] and hi <= F[1]:
                r = sext(t.a[0], n)
                for a in t.a[1:]: r = mul(r, sext(a, n))
                return r
        if t.op == 'ite': return ite(t.a[0], sext(t.a[1], n), sext(t.a[2], n))
        if ivs(t)[0] >= 0: return zext(t, n)
        if t.op == 'ext' and t.k[1] == 0 and t.a[0].w >= n:
            lo, hi = ivs(t.a[0]); F = full(t.w)
            if lo >= F[0] and hi <= F[1]: return ext(t.a[0], n - 1, 0)
    elif True:
        return mk('ite', n, (t, const(-1, n), const(0, n))) if False else ite(t, const(-1, n), const(0, n))
    return mk('sext', n, (t,))
def zext1(t, n): return ite(t, const(1, n), const(0, n)) if t.w == 1 else zext(t, n)

def and_(a, b):
    if a.w == 1: return band(a, b)
    if isc(a): a, b = b, a
    w = a.w
    if isc(b):
        if isc(a): return const(a.k & b.k, w)
        m = b.k
        if m == 0: return const(0, w)
        if m == mask(w): return a
        if m & (m + 1) == 0:  # low mask
            return zext(ext(a, m.bit_length() - 1, 0), w)
        lo = (m & -m).bit_length() - 1
        if (m >> lo) & ((m >> lo) + 1) == 0:  # contiguous field
            hi = m.bit_length() - 1
            return scale(zext(ext(a, hi, lo), w), 1 << lo)
        if a.op == 'and' and isc(a.a[1]): return and_(a.a[0], const(a.a[1].k & m, w))
        return mk('and', w, (a, b))
    if a is b: return a
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return zext(and_(a.a[0], b.a[0]), w)
    if a.op == 'ite' and isc(a.a[1]) and isc(a.a[2]): return ite(a.a[0], and_(a.a[1], b), and_(a.a[2], b))
    if b.op == 'ite' and isc(b.a[1]) and isc(b.a[2]): return ite(b.a[0], and_(a, b.a[1]), and_(a, b.a[2]))
    if a.id > b.id: a, b = b, a
    return mk('and', w, (a, b))
def or_(a, b):
    if a.w == 1: return bor(a, b)
    if isc(a): a, b = b, a
    w = a.w
    if isc(b):
        if isc(a): return const(a.k | b.k, w)
        if b.k == 0: return a
        if b.k == mask(w): return b
    if a is b: return a
    if _disjoint(a, b): return add(a, b)
    if a.op == 'ite' and isc(a.a[1]) and isc(a.a[2]) and {a.a[1].k, a.a[2].k} <= {0, mask(w)}: return ite(a.a[0], or_(a.a[1], b), or_(a.a[2], b))
    if b.op == 'ite' and isc(b.a[1]) and isc(b.a[2]) and {b.a[1].k, b.a[2].k} <= {0, mask(w)}: return ite(b.a[0], or_(a, b.a[1]), or_(a, b.a[2]))
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return zext(or_(a.a[0], b.a[0]), w)
    if a.id > b.id: a, b = b, a
    return mk('or', w, (a, b))
def _maybe(t):
    """mask of bits that may be one"""
    if t.op == 'c': return t.k
    if t.op == 'zext': return _maybe(t.a[0])
    if t.op == 'and' and t.w > 1: return _maybe(t.a[0]) & _maybe(t.a[1])
    if t.op == 'ite': return _maybe(t.a[1]) | _maybe(t.a[2])
    if t.op == 'lin' and t.k[0] == 0 and len(t.a) == 1:
        co = t.k[1][0]
        if co & (co - 1) == 0: return (_maybe(t.a[0]) * co) & mask(t.w)
    l, h = ivu(t)
    return (1 << h.bit_length()) - 1
def _disjoint(a, b): return _maybe(a) & _maybe(b) == 0
def xor(a, b):
    if a.w == 1: return bxor(a, b)
    if isc(a): a, b = b, a
    w = a.w
    if isc(b):
        if isc(a): return const(a.k ^ b.k, w)
        if b.k == 0: return a
        if b.k == mask(w): return sub(const(-1, w), a)   # ~a = -1 - a
        if b.k == 1 << (w - 1): return add(a, b)
        if a.op == 'xor' and isc(a.a[1]): return xor(a.a[0], const(a.a[1].k ^ b.k, w))
        l, h = ivu(a)
        if b.k & (b.k + 1) == 0 and h <= b.k: return sub(b, a)  # m - a
        if a.op == 'ite' and isc(a.a[1]) and isc(a.a[2]): return ite(a.a[0], xor(a.a[1], b), xor(a.a[2], b))
        return mk('xor', w, (a, b))
    if a is b: return const(0, w)
    if a.op == 'ite' and isc(a.a[1]) and isc(a.a[2]) and {a.a[1].k, a.a[2].k} <= {0, mask(w)}: return ite(a.a[0], xor(a.a[1], b), xor(a.a[2], b))
    if b.op == 'ite' and isc(b.a[1]) and isc(b.a[2]) and {b.a[1].k, b.a[2].k} <= {0, mask(w)}: return ite(b.a[0], xor(a, b.a[1]), xor(a, b.a[2]))
    if a.id > b.id: a, b = b, a
    return mk('xor', w, (a, b))
def shl(a, b):
    if isc(b):
        if b.k >= a.w: return const(0, a.w)
        return scale(a, 1 << b.k)
    if a.w == 1: return a
    return mk('shl', a.w, (a, b))
def lshr(a, b):
    if isc(b):
        if b.k >= a.w: return const(0, a.w)
        if b.k == 0: return a
        return zext(ext(a, a.w - 1, b.k), a.w)
    if isc(a) and a.k == 0: return a
    return mk('lshr', a.w, (a, b))
def ashr(a, b):
    if isc(b):
        k = min(b.k, a.w - 1)
        if k == 0: return a
        if ivs(a)[0] >= 0: return lshr(a, const(k, a.w))
        return sext(ext(a, a.w - 1, k), a.w)
    if ivs(a)[0] >= 0: return lshr(a, b)
    return mk('ashr', a.w, (a, b))
def _divlin_exact(t, k):
    """t / k for a linear term all of whose coefficients are multiples of k and which does not wrap"""
    c, items = lin_of(t)
    if not items or sgn(c, t.w) % k or any(sgn(co, t.w) % k for co, _ in items): return None
    if len(items) == 1 and items[0][0] == 1 and not c: return None
    return mklin(t.w, (sgn(c, t.w) // k) & mask(t.w), {x: (sgn(co, t.w) // k) & mask(t.w) for co, x in items})
def _divsplit(a, d):
    """a = A*d + B for an exact sum a, with 0 <= B: (A, B), or None"""
    if a.op != 'lin' or not _lin_exact_u(a): return None
    c, cs = a.k; c = sgn(c, a.w); cs = [sgn(x, a.w) for x in cs]
    if not any(abs(x) >= d for x in cs + [c]): return None
    A = const(c // d, a.w); B = const(c % d, a.w)
    for co, x in zip(cs, a.a):
        q = abs(co) // d * (1 if co >= 0 else -1)
        if q: A = add(A, scale(x, q))
        if co - q * d: B = add(B, scale(x, co - q * d))
    if B.op == 'lin' and not _lin_exact_u(B): return None
    for y in (A, B):
        l, h = ivs(y)
        if l < 0 or y.op == 'lin' and not _lin_exact_s(y): return None
    return A, B
def udiv(a, b):
    if isc(b) and b.k:
        if isc(a): return const(a.k // b.k, a.w)
        if b.k == 1: return a
        if b.k & (b.k - 1) == 0: return lshr(a, const(b.k.bit_length() - 1, a.w))
        if a.op == 'zext' and b.k <= mask(a.a[0].w): return zext(udiv(a.a[0], const(b.k, a.a[0].w)), a.w)
        l, h = ivu(a)
        if h < b.k: return const(0, a.w)
        s = _divsplit(a, b.k)
        if s is not None: return add(s[0], udiv(s[1], b))
    return mk('udiv', a.w, (a, b))
REM_HOOK = []      # (divisor, dividend -> remainder term): remainders by that divisor become that term (a named remainder and its facts)
def urem(a, b):
    for d, f in REM_HOOK:
        if b is d: return f(a)
    if isc(b) and b.k:
        if isc(a): return const(a.k % b.k, a.w)
        if b.k == 1: return const(0, a.w)
        if b.k & (b.k - 1) == 0: return and_(a, const(b.k - 1, a.w))
        if a.op == 'zext' and b.k <= mask(a.a[0].w): return zext(urem(a.a[0], const(b.k, a.a[0].w)), a.w)
        l, h = ivu(a)
        if h < b.k: return a
        s = _divsplit(a, b.k)
        if s is not None: return urem(s[1], b)
    return mk('urem', a.w, (a, b))
def sdiv(a, b):
    if isc(b) and b.k:
        if b.k == 1: return a
        if 0 < scval(b) and _lin_exact_s(a):
            q = _divlin_exact(a, b.k)
            if q is not None: return q
        if isc(a):
            x, y = scval(a), scval(b); q = abs(x) // abs(y); return const(q if (x < 0) == (y < 0) else -q, a.w)
    if ivs(a)[0] >= 0 and ivs(b)[0] > 0: return udiv(a, b)
    return mk('sdiv', a.w, (a, b))
def srem(a, b):
    if isc(b) and b.k:
        if isc(a):
            x, y = scval(a), scval(b); r = abs(x) % abs(y); return const(r if x >= 0 else -r, a.w)
    if ivs(a)[0] >= 0 and ivs(b)[0] > 0: return urem(a, b)
    return mk('srem', a.w, (a, b))
def smax(a, b): return ite(slt(a, b), b, a)
def smin(a, b): return ite(slt(b, a), b, a)
def umax(a, b): return ite(ult(a, b), b, a)
def umin(a, b): return ite(ult(b, a), b, a)
def uf(name, w, args, lo=None, hi=None):
    return mk('uf', w, tuple(args), name if lo is None and hi is None else (name, lo, hi))
def tbl(vals, w, idx):
    """constant table lookup (index outside the table: last entry is not implied; caller checks bounds)"""
    if isc(idx): return const(vals[idx.k], w)
    if all(v == vals[0] for v in vals): return const(vals[0], w)
    return mk('tbl', w, (idx,), tuple(vals))

# ---------------------------------------------------------------- floats (uninterpreted, normalised)
def fop(name, w, args):
    args = tuple(args)
    if all(x.op == 'c' for x in args) and name in _FOLD:
        r = ffold(name, w, args)
        if r is not None: return r
    if name == 'fma': return fop('fadd', w, (fop('fmul', w, args[:2]), args[2]))
    if name == 'fsub':
        return fop('fadd', w, (args[0], fneg(args[1])))
    if name in ('fadd', 'fmul'):
        if name == 'fmul':
            # pull signs out of products
            s = 0; aa = []
            for x in args:
                if x.op == 'fneg': s ^= 1; x = x.a[0]
                aa.append(x)
            args = tuple(sorted(aa, key=lambda x: x.id))
            for i in (0, 1):
                if isc(args[i]) and args[i].k == (0x3f800000 if w == 32 else 0x3ff0000000000000):
                    return fneg(args[1 - i]) if s else args[1 - i]
            r = mk('fmul', w, args)
            return fneg(r) if s else r
        args = tuple(sorted(args, key=lambda x: x.id))
        return mk('fadd', w, args)
    return mk(name, w, args)
_FOLD = {'fadd', 'fsub', 'fmul', 'fdiv'}
_FT = {32: ('<f', '<I'), 64: ('<d', '<Q')}
def fval(t): return struct.unpack(_FT[t.w][0], struct.pack(_FT[t.w][1], t.k))[0]
def fconst(v, w):
    """the constant v rounded to the format (v a double; single rounding is exact for + - * / of singles)"""
    try: return const(struct.unpack(_FT[w][1], struct.pack(_FT[w][0], v))[0], w)
    except OverflowError: return None
def ffold(name, w, args):
    if w not in _FT: return None
    a, b = [fval(x) for x in args]
    if not (math.isfinite(a) and math.isfinite(b)): return None
    try: r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[name]()
    except (ZeroDivisionError, OverflowError): return None
    return fconst(r, w) if math.isfinite(r) else None
REPL = {}   # conversion terms standing for a bounded value (see the contract that installs them)
def cvtfold(x, op, f, w):
    """conversions of constants (in range only)"""
    try:
        if op in ('fpext', 'fptrunc'): return fconst(fval(x), w) if math.isfinite(fval(x)) else None
        if op in ('fptosi', 'fptoui'):
            v = fval(x)
            if not math.isfinite(v): return None
            v = int(v); lo, hi = ((-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, mask(w)))
            return const(v, w) if lo <= v <= hi else None
        if op in ('sitofp', 'uitofp'):
            v = sgn(x.k, x.w) if op == 'sitofp' else x.k
            if abs(v) <= (1 << (24 if w == 32 else 53)): return fconst(float(v), w)
    except (KeyError, OverflowError): pass
    return None
def fneg(x):
    if isc(x): return const(x.k ^ (1 << (x.w - 1)), x.w)
    if x.op == 'fneg': return x.a[0]
    return mk('fneg', x.w, (x,))
def fcmp(pred, a, b):
    """ordered less-than / equal / unordered are the primitives"""
    if isc(a) and isc(b) and a.w in _FT:
        x, y = fval(a), fval(b)
        lt = lambda p, q: TRUE if fval(p) < fval(q) else FALSE
        feq = lambda p, q: TRUE if x == y else FALSE
        uno = lambda p, q: TRUE if x != x or y != y else FALSE
    else:
        def lt(x, y):
            if isc(x) and x.w in _FT and (fval(x) != fval(x) or fval(x) == float('inf')) or isc(y) and y.w in _FT and (fval(y) != fval(y) or fval(y) == float('-inf')): return FALSE
            return mk('flt', 1, (x, y))
        def feq(x, y): return mk('feq', 1, (x, y) if x.id <= y.id else (y, x))
        def uno(x, y): return mk('funo', 1, (x, y) if x.id <= y.id else (y, x))
    def le(x, y): return bor(lt(x, y), feq(x, y))
    if pred == 'true': return TRUE
    if pred == 'false': return FALSE
    u = pred[0] == 'u'
    if pred == 'ord': return bnot(uno(a, b))
    if pred == 'uno': return uno(a, b)
    p = pred[1:]
    if u:   # unordered-or-P  ==  not (ordered-and-notP)
        inv = {'eq': 'one', 'gt': 'ole', 'ge': 'olt', 'lt': 'oge', 'le': 'ogt', 'ne': 'oeq'}[p]
        return bnot(fcmp(inv, a, b))
    return {'eq': lambda: feq(a, b), 'gt': lambda: lt(b, a), 'ge': lambda: le(b, a), 'lt': lambda: lt(a, b),
            'le': lambda: le(a, b), 'ne': lambda: bor(lt(a, b), lt(b, a))}[p]()

# ---------------------------------------------------------------- traversal
def fv(t):
    """free variables"""
    r = t._fv
    if r is None:
        if t.op == 'v': r = frozenset((t,))
        else:
            r = frozenset()
            for x in t.a: r |= fv(x)
        t._fv = r
    return r

def rebuild(t, args):
    op = t.op; w = t.w
    if op == 'lin':
        c, cs = t.k; r = const(c, w)
        for co, x in zip(cs, args): r = add(r, scale(x, co))
        return r
    if op == 'mul':
        r = args[0]
        for x in args[1:]: r = mul(r, x)
        return r
    if op == 'and': 
        if w == 1: return band(*args)
        return and_(*args)
    if op == 'or': return or_(*args)
    if op == 'xor': return xor(*args)
    if op == 'not': return bnot(args[0])
    if op == 'ext': return ext(args[0], *t.k)
    if op == 'zext': return zext(args[0], w)
    if op == 'sext': return sext(args[0], w)
    if op == 'tbl': return tbl(t.k, w, args[0])
    if op in ('fadd', 'fmul'): return fop(op, w, args)
    if op == 'fneg': return fneg(args[0])
    if op in ('flt',): return fcmp('olt', *args)
    if op == 'fltmin': return args[0] if args[0] is args[1] else ite(fcmp('olt', *args), *args)
    if op == 'fltmax': return args[0] if args[0] is args[1] else ite(fcmp('olt', *args), args[1], args[0])
    if op in ('feq', 'funo'): return mk(op, 1, tuple(sorted(args, key=lambda x: x.id)))
    f = _BUILD.get(op)
    if f: return f(*args)
    return mk(op, w, args, t.k)
_BUILD = dict(eq=eq, ult=ult, slt=slt, ite=ite, concat=concat, shl=shl, lshr=lshr, ashr=ashr, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem)
for n, f in list(_BUILD.items()): pass

def subst(t, m, memo=None):
    """simultaneous substitution of variables (or any atoms) in m"""
    if memo is None: memo = {}
    keys = frozenset(k for k in m if k.op == 'v')
    allv = len(keys) == len(m)
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t in m: r = m[t]
        elif not t.a: r = t
        elif allv and not (fv(t) & keys): r = t
        else:
            na = tuple(go(x) for x in t.a)
            r = t if na == t.a else rebuild(t, na)
        memo[t] = r
        return r
    return go(t)

def atoms(t, pred, acc=None, seen=None):
    if acc is None: acc = []; seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if pred(x): acc.append(x)
        st.extend(x.a)
    return acc

def size(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st.extend(x.a)
    return len(seen)

# concrete evaluation (for counterexamples / self tests)
def evalt(t, env, memo=None):
    if memo is None: memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        op = t.op; w = t.w; M = mask(w)
        if op == 'c': r = t.k
        elif op == 'v' : r = env[t] & M
        elif op == 'uf' and t in env: r = env[t] & M
        elif op == 'ite': r = go(t.a[1]) if go(t.a[0]) else go(t.a[2])
        else:
            v = [go(x) for x in t.a]; aw = t.a[0].w
            if op == 'lin':
                r = t.k[0] + sum(co * x for co, x in zip(t.k[1], v))
            elif op == 'mul':
                r = 1
                for x in v: r *= x
            elif op == 'and':
                r = v[0]
                for x in v[1:]: r &= x
            elif op == 'or': r = v[0] | v[1]
            elif op == 'xor': r = v[0] ^ v[1]
            elif op == 'not': r = 1 - v[0]
            elif op == 'eq': r = int(v[0] == v[1])
            elif op == 'ult': r = int(v[0] < v[1])
            elif op == 'slt': r = int(sgn(v[0], aw) < sgn(v[1], aw))
            elif op == 'ext': r = v[0] >> t.k[1]
            elif op == 'zext': r = v[0]
            elif op == 'sext': r = sgn(v[0], aw)
            elif op == 'concat': r = (v[0] << t.a[1].w) | v[1]
            elif op == 'shl': r = v[0] << v[1] if v[1] < w else 0
            elif op == 'lshr': r = v[0] >> v[1] if v[1] < w else 0
            elif op == 'ashr': r = sgn(v[0], w) >> min(v[1], w - 1)
            elif op == 'udiv': r = v[0] // v[1] if v[1] else M
            elif op == 'urem': r = v[0] % v[1] if v[1] else v[0]
            elif op in ('sdiv', 'srem'):
                x, y = sgn(v[0], w), sgn(v[1], w)
                if y == 0: r = (M if x >= 0 else 1) if op == 'sdiv' else v[0]
                else:
                    q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                    r = q if op == 'sdiv' else x - q * y
            elif op == 'tbl': r = t.k[v[0]] if v[0] < len(t.k) else 0
            else: raise KeyError(op)
        r &= M
        memo[t] = r
        return r
    return go(t)
