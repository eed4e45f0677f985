"""Symbolic execution of exported IR with contracts at calls and unbounded loop summaries."""
import re
from term import *
from term import REPL
from ir import *
import solve

class Unsup(Exception):
    """outside the verifier's reach (never a verdict about the code)"""

class Region:
    cnt = 0
    def __init__(s, name, kind='obj', es=None, strides=(), init=None, size=None, fields=None, ro=False, info=None):
        Region.cnt += 1; s.n = Region.cnt
        s.name = name; s.kind = kind; s.es = es; s.strides = tuple(strides); s.init = init; s.size = size; s.fields = fields or {}; s.ro = ro; s.info = info or {}
        s.addr = None
    def __repr__(s): return f'<{s.name}>'
    def __hash__(s): return s.n
    def __eq__(s, o): return s is o
    def base(s):
        if s.addr is None: s.addr = var(f'&{s.name}.{s.n}', 64, 4096, (1 << 47))
        return s.addr

Z64 = const(0, 64)
class P:
    __slots__ = ('r', 'o')
    def __init__(s, r, o=Z64): s.r = r; s.o = o
    def __repr__(s): return f'{s.r}+{s.o}'
    def __eq__(s, x): return isinstance(x, P) and s.r is x.r and s.o is x.o
    def __hash__(s): return hash((s.r.n, s.o.id))
class PI:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return f'({s.c} ? {s.a} : {s.b})'
    def __eq__(s, x): return isinstance(x, PI) and s.c is x.c and s.a == x.a and s.b == x.b
    def __hash__(s): return hash((s.c.id, s.a, s.b))
NULLR = Region('null', 'null')
NULL = P(NULLR, Z64)
class V(tuple): pass
class Agg(tuple): pass
class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()
class Opaque:
    """a value the verifier does not look into (identity only)"""
    def __init__(s, name): s.name = name
    def __repr__(s): return f'opaque:{s.name}'

def isptr(v): return isinstance(v, (P, PI))
def same(a, b):
    if a is b: return True
    if isinstance(a, (P, PI)) and isinstance(b, (P, PI)): return a == b
    if isinstance(a, (V, Agg)) and type(a) is type(b) and len(a) == len(b): return all(same(x, y) for x, y in zip(a, b))
    return False
def vite(c, a, b):
    """conditional value; raises Unsup when the two cannot be combined"""
    if same(a, b): return a
    if isc(c): return a if c.k else b
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, T) and isinstance(b, T):
        if a.w != b.w: raise Unsup('merge width')
        return ite(c, a, b)
    if isptr(a) and isptr(b):
        if isinstance(a, P) and isinstance(b, P) and a.r is b.r: return P(a.r, ite(c, a.o, b.o))
        if c.op == 'not': return vite(c.a[0], b, a)
        if isinstance(a, PI) and a.c is c: a = a.a
        if isinstance(b, PI) and b.c is c: b = b.b
        if isinstance(b, PI) and same(b.a, a): return PI(bor(c, b.c), a, b.b)
        if isinstance(b, PI) and same(b.b, a): return PI(band(bnot(c), b.c), b.a, a)
        return PI(c, a, b)
    if isptr(a) and isinstance(b, T) and b.w == 64 or isptr(b) and isinstance(a, T) and a.w == 64:
        raise Unsup('merge ptr/int')
    if isinstance(a, (V, Agg)) and type(a) is type(b) and len(a) == len(b): return type(a)(vite(c, x, y) for x, y in zip(a, b))
    raise Unsup(f'cannot merge values {a!r} / {b!r}')
def pcases(p, c=TRUE):
    """(condition, P) alternatives of a pointer"""
    if isinstance(p, P): yield c, p
    elif isinstance(p, PI):
        yield from pcases(p.a, band(c, p.c)); yield from pcases(p.b, band(c, bnot(p.c)))
    else: raise Unsup(f'not a pointer: {p!r}')
def padd(p, o):
    if isinstance(p, P): return P(p.r, add(p.o, o))
    if isinstance(p, PI): return vite(p.c, padd(p.a, o), padd(p.b, o))
    raise Unsup(f'pointer arithmetic on {p!r}')
def vsubst(v, m, memo=None):
    if memo is None: memo = {}
    if isinstance(v, T): return subst(v, m, memo)
    if isinstance(v, P): return P(v.r, subst(v.o, m, memo))
    if isinstance(v, PI): return vite(subst(v.c, m, memo), vsubst(v.a, m, memo), vsubst(v.b, m, memo))
    if isinstance(v, (V, Agg)): return type(v)(vsubst(x, m, memo) for x in v)
    if isinstance(v, tuple): return tuple(vsubst(x, m, memo) for x in v)
    if isinstance(v, W): return v.subst(m, memo)
    return v
def vfv(v):
    if isinstance(v, T): return fv(v)
    if isinstance(v, P): return fv(v.o)
    if isinstance(v, PI): return fv(v.c) | vfv(v.a) | vfv(v.b)
    if isinstance(v, (tuple,)):
        r = frozenset()
        for x in v: r |= vfv(x)
        return r
    return frozenset()

class W:
    """array write: for all iteration vectors ivs in range with cond, lanes vals stored from offset off"""
    __slots__ = ('ivs', 'cond', 'off', 'es', 'vals', 'ln')
    def __init__(s, ivs, cond, off, es, vals, ln=None): s.ivs = tuple(ivs); s.cond = cond; s.off = off; s.es = es; s.vals = tuple(vals); s.ln = ln
    def subst(s, m, memo):
        return W(tuple((v, subst(n, m, memo)) for v, n in s.ivs), subst(s.cond, m, memo), subst(s.off, m, memo), s.es, tuple(subst(x, m, memo) if isinstance(x, T) else vsubst(x, m, memo) for x in s.vals), s.ln)
    def guarded(s, c): return W(s.ivs, band(c, s.cond), s.off, s.es, s.vals, s.ln)
    def __repr__(s): return f'W[{",".join(f"{v}<{n}" for v, n in s.ivs)} | {s.cond}] @{s.off} x{len(s.vals)}*{s.es} := {s.vals[0]!r}{"..." if len(s.vals) > 1 else ""}'
class CP:
    """block copy: bytes [doff, doff+len) := bytes of src (snapshot) from soff"""
    pass

class RS:
    """contents of one region: scalar cells at constant offsets, write log for arrays, copied-in ranges"""
    __slots__ = ('cells', 'log', 'fb')
    def __init__(s, cells=None, log=(), fb=()): s.cells = cells or {}; s.log = log; s.fb = fb
    def copy(s): return RS(dict(s.cells), s.log, s.fb)

class State:
    __slots__ = ('env', 'mem', 'pc', 'ev', 'nsw', 'exc', 'gh')
    def __init__(s): s.env = {}; s.mem = {}; s.pc = (); s.ev = (); s.nsw = {}; s.exc = None; s.gh = {}
    def copy(s):
        r = State.__new__(State); r.env = dict(s.env); r.mem = dict(s.mem); r.pc = s.pc; r.ev = s.ev; r.nsw = s.nsw; r.exc = s.exc; r.gh = s.gh
        return r
    def assume(s, c):
        if c is TRUE: return s
        if c.op == 'and' and c.w == 1:
            for x in c.a: s.assume(x)
            return s
        if c in s.pc: return s
        if bnot(c) in s.pc: c = FALSE
        s.pc = s.pc + (c,)
        return s
    def event(s, *e): s.ev = s.ev + (tuple(e),)
    def ghost(s, k, v): s.gh = dict(s.gh); s.gh[k] = v

def decomp(off, strides):
    """off = sum of coordinate_k * unit_k*atom_k + col, for the stride atoms of the region (outermost first)"""
    if not strides: return (off,)
    for co, x in lin_of(off)[1]:
        if x.op == 'ite' and mentions(x, strides):
            # an offset chosen by a condition: decompose both choices
            rest = sub(off, scale(x, sgn(co, 64))); c, a, b = x.a
            p = decomp(add(rest, scale(a, sgn(co, 64))), strides); q = decomp(add(rest, scale(b, sgn(co, 64))), strides)
            return tuple(ite(c, u, v) for u, v in zip(p, q))
    out = []
    for A, unit in strides:
        c, items = lin_of(off)
        row = const(0, 64); col = {}
        for co, x in items:
            co = sgn(co, 64)
            if x is A or x.op == 'mul' and A in x.a:
                if co % unit: raise Unsup(f'fractional stride in {off}')
                if x is A: row = add(row, const(co // unit, 64))
                else:
                    l = list(x.a); l.remove(A)
                    r = l[0]
                    for y in l[1:]: r = mul(r, y)
                    row = add(row, scale(r, co // unit))
            else: col[x] = co
        out.append(row)
        off = mklin(64, c, col)
    return tuple(out) + (off,)

def mentions(t, strides):
    A = {a for a, _ in strides}; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in A: return True
        if x.id in seen: continue
        seen.add(x.id); st.extend(x.a)
    return False
def ratio(x, p):
    """k with x = k * p, if the linear forms show one"""
    if x is p: return 1
    (cx, lx), (cp, lp) = lin_of(x), lin_of(p)
    if len(lx) != len(lp) or not lp: return None
    a, b = sgn(lx[0][0], x.w), sgn(lp[0][0], p.w)
    if b <= 0 or a % b or a // b <= 1: return None
    return a // b if scale(p, a // b) is x else None
def factor_of(n, x):
    """t with n == x*t, or None"""
    k, it = lin_of(n); k2, it2 = lin_of(x)
    if k != 0 or k2 != 0 or len(it) != 1 or len(it2) != 1: return None
    c, a = sgn(it[0][0], 64), it[0][1]; c2, b = sgn(it2[0][0], 64), it2[0][1]
    if c2 == 0 or c % c2: return None
    if a is b: return const(c // c2, 64)
    l = list(a.a) if a.op == 'mul' else [a]
    for f in (b.a if b.op == 'mul' else [b]):
        if f not in l: return None
        l.remove(f)
    r = const(1, 64)
    for f in l: r = mul(r, f)
    return scale(r, c // c2)
from term import _lin_exact_s
class Merge(Exception): pass

class Exec:
    def __init__(s, mod, contracts=None, api=None, unroll=12, name=''):
        s.mod = mod; s.contracts = contracts or []; s.api = api; s.unroll = unroll; s.name = name
        s.aborts = []; s.assumptions = set(); s.reads = None; s.under = set(); s.obl = []; s.inlined = set()
        s.gcache = {}; s.ccache = {}; s.notes = []; s.depth = 0; s.loopmode = {}; s.ninst = 0; s.maxinst = 4000000
        s.loops_unrolled = 0; s.loops_summarised = 0
        s.invariants = {}   # user loop handlers
        s.curloop = []; s.altobl = {}
        s.allocs = 0; s.facts = []; s.access = None
    # ------------------------------------------------ feasibility
    def feas(s, st, c):
        if c is FALSE: return False
        if c is TRUE: return True
        if bnot(c) in st.pc: return False
        if c in st.pc: return True
        rh = solve.relevant(tuple(st.pc) + tuple(s.facts), c)
        return solve.feasible(tuple(rh) + (c,))
    def nonneg(s, st, t):
        """t >= 0 (signed), looking into sums and products first"""
        if ivs(t)[0] >= 0: return True
        if t.op == 'sext': return s.nonneg(st, t.a[0])
        if t.op == 'lin' and _lin_exact_s(t) and sgn(t.k[0], t.w) >= 0 and all(sgn(c, t.w) > 0 for c in t.k[1]) and all(s.nonneg(st, x) for x in t.a): return True
        if t.op == 'mul':
            m = 1
            for x in t.a: m *= max(abs(v) for v in ivs(x))
            if m < 1 << (t.w - 1) and all(s.nonneg(st, x) for x in t.a): return True
        return s.must(st, sle(const(0, t.w), t))
    def must(s, st, c): return not s.feas(st, bnot(c))
    def oblige(s, st, c, what):
        """side obligation generated by the executor itself"""
        if c is TRUE: return
        if c in st.pc: return
        s.obl.append((what, st.pc, c))
    def acc(s, st, r, off, n, what, ln, extra=()):
        """bounds obligation for an access to a region with declared extent"""
        b = r.info.get('bound')
        if b is None: return
        co = decomp(off, r.strides); c = b(co, n)
        if r.strides and 'h' in r.info and c is not TRUE:
            # the same extent as one flat block of whole rows, for code that walks it that way
            A, u = r.strides[-1]; S = scale(A, u); o = add(mul(co[-2], S), co[-1])
            s.altobl[c] = band(sle(Z64, o), sle(add(o, n if isinstance(n, T) else const(n, 64)), mul(zext(r.info['h'], 64), S)))
        s.oblige_raw(st, c, f'{what} of {n if isinstance(n, int) else "block"} bytes inside {r.name} (line {ln})', extra)
    def oblige_raw(s, st, c, what, extra=()):
        if c is TRUE: return
        s.obl.append((what, tuple(st.pc) + tuple(extra), c))
    # ------------------------------------------------ constants
    def val(s, st, o):
        if isinstance(o, int):
            try: return st.env[o]
            except KeyError: raise Unsup(f'value %{o} unavailable after merge')
        k = o[0]
        if k == 'c': return const(int(o[2]), o[1])
        if k == 'f': return const(int(o[2]), ty(o[1]).n)
        if k == 'null': return NULL
        if k == 'undef' or k == 'poison': return s.undef(ty(o[1]))
        if k == 'fn': return P(s.fnreg(o[1]))
        if k == 'g': return P(s.greg(o[1]))
        if k == 'cgep': return padd(s.val(st, o[1]), const(o[2], 64))
        if k == 'zero': return s.zero(ty(o[1]))
        if k == 'agg':
            t = ty(o[1]); vs = [s.val(st, x) for x in o[2]]
            return V(vs) if t.k == 'v' else Agg(vs)
        if k == 'ce':
            return s.constexpr(st, o)
        raise Unsup(f'operand {o}')
    def constexpr(s, st, o):
        op = o[1]; a = [s.val(st, x) for x in o[3]]
        if op == 'ptrtoint': return s.p2i(a[0])
        if op == 'inttoptr': return s.i2p(a[0])
        if op == 'sub': return sub(a[0], a[1])
        raise Unsup('constexpr ' + op)
    def undef(s, t):
        if t.k == 'v': return V([UNDEF] * t.n)
        if t.k == 'a': return Agg([s.undef(t.e)] * t.n)
        if t.k == 's': return Agg([s.undef(e) for _, e in t.fs])
        return UNDEF
    def zero(s, t):
        if t.k in 'if': return const(0, t.n)
        if t.k == 'p': return NULL
        if t.k == 'v': return V([s.zero(t.e)] * t.n)
        if t.k == 'a': return Agg([s.zero(t.e)] * t.n)
        if t.k == 's': return Agg([s.zero(e) for _, e in t.fs])
    def fnreg(s, n):
        r = s.gcache.get('fn:' + n)
        if r is None: r = s.gcache['fn:' + n] = Region(n, 'fn')
        return r
    def greg(s, n):
        r = s.gcache.get(n)
        if r is None:
            g = s.mod.globals[n]
            r = s.gcache[n] = Region(n, 'glob', size=g['size'], ro=g['const'], info=g)
        return r
    def ginit(s, r):
        """flattened initialiser: offset -> (size, operand)"""
        c = r.info.get('cells')
        if c is None:
            c = {}
            def go(t, o, off):
                if t.k in 'ifp': c[off] = (tsize(t), o, t); return
                if o[0] in ('zero', 'undef', 'poison'):
                    for f, lt in leaves(t, off): c[f] = (tsize(lt), ['zero', lt.s or 'ptr'], lt)
                    return
                if o[0] != 'agg': c['bad'] = True; return
                if t.k in 'va':
                    n = tsize(t.e)
                    for i, x in enumerate(o[2]): go(t.e, x, off + i * n)
                else:
                    for (f, e), x in zip(t.fs, o[2]): go(e, x, off + f)
            if 'init' in r.info: go(ty(r.info['ty']), r.info['init'], 0)
            r.info['cells'] = c
        return c
    # ------------------------------------------------ pointers <-> ints
    def p2i(s, p):
        if isinstance(p, PI): return ite(p.c, s.p2i(p.a), s.p2i(p.b))
        if p is UNDEF: return const(0, 64)
        if p.r is NULLR: return p.o
        b = p.r.base(); s.gcache[('addr', b)] = p.r
        return add(b, p.o)
    def i2p(s, t):
        if isptr(t): return t
        if isc(t) and t.k == 0: return NULL
        if t.op == 'ite': return vite(t.a[0], s.i2p(t.a[1]), s.i2p(t.a[2]))
        c, items = lin_of(t)
        for co, x in items:
            r = s.gcache.get(('addr', x))
            if r is not None and co == 1: return P(r, sub(t, x))
        return P(NULLR, t)      # an integer carried in a pointer
    def asint(s, v, w):
        if isinstance(v, T): return v
        if isptr(v): return s.p2i(v)
        if v is UNDEF: return const(0, w)
        if isinstance(v, V):
            r = None
            for x in v:
                x = s.asint(x, 0) if not isinstance(x, T) else x
                r = x if r is None else concat(x, r)
            return r
        raise Unsup(f'asint {v!r}')
    # ------------------------------------------------ memory
    def rs(s, st, r):
        x = st.mem.get(r)
        if x is None: x = st.mem[r] = RS()
        return x
    def wrs(s, st, r):
        x = st.mem.get(r); x = RS() if x is None else x.copy(); st.mem[r] = x
        return x
    def nonnull(s, st, p, ln, ctx=TRUE):
        """a conditional pointer about to be dereferenced: null alternatives become obligations and are dropped"""
        if isinstance(p, P): return p
        a, b = s.nonnull(st, p.a, ln, band(ctx, p.c)), s.nonnull(st, p.b, ln, band(ctx, bnot(p.c)))
        if isinstance(a, P) and a.r is NULLR and isinstance(b, P) and b.r is NULLR: return a
        for q, o, c in ((a, b, p.c), (b, a, bnot(p.c))):
            if isinstance(q, P) and q.r is NULLR:
                c = band(ctx, c)
                if s.feas(st, c): s.aborts.append(('null-deref', st.pc + (c,), ln)); st.assume(bnot(c))
                return o
        return vite(p.c, a, b)
    def load(s, st, p, t, ln=None):
        if isinstance(p, PI): p = s.nonnull(st, p, ln)
        if isinstance(p, PI): return vite(p.c, s.load(st, p.a, t, ln), s.load(st, p.b, t, ln))
        if not isinstance(p, P): raise Unsup(f'load through {p!r}')
        if p.r is NULLR: 
            s.aborts.append(('null-deref', st.pc, ln)); st.assume(FALSE); return s.undef(t)
        if p.r.kind == 'rec' and t.k not in 'sav':
            return p.r.info['loader'](s, st, p.r, p.o, tsize(t), t)
        if t.k == 's' or t.k == 'a':
            return Agg([s.load(st, P(p.r, add(p.o, const(o, 64))), e, ln) for o, e in (t.fs if t.k == 's' else [(i * tsize(t.e), t.e) for i in range(t.n)])])
        if t.k == 'v':
            n = tsize(t.e); es = p.r.es
            if p.r.kind == 'arr': s.acc(st, p.r, p.o, n * t.n, 'read', ln)
            if p.r.kind == 'arr' and es and n > es and t.e.k == 'i':
                # load elements and glue lanes
                k = n // es; m = t.n * k
                el = [s.load_arr(st, p.r, add(p.o, const(i * es, 64)), es, ln) for i in range(m)]
                out = []
                for i in range(t.n):
                    r = el[i * k]
                    for j in range(1, k): r = concat(el[i * k + j], r)
                    out.append(r)
                return V(out)
            if p.r.kind == 'arr' and es and n < es and t.e.k == 'i' and t.e.n % 8 == 0 and es % n == 0 and t.n * n % es == 0:
                k = es // n; out = []
                for i in range(t.n // k):
                    e = s.load_arr(st, p.r, add(p.o, const(i * es, 64)), es, ln)
                    out += [e if e is UNDEF else ext(e, (j + 1) * 8 * n - 1, j * 8 * n) for j in range(k)]
                return V(out)
            if t.e.k == 'i' and t.e.n == 1:
                x = s.load(st, p, ty(f'i{t.n}'), ln); return V([ext(x, i, i) for i in range(t.n)])
            b_ = p.r.info.get('bound'); p.r.info['bound'] = None
            try: return V([s.load(st, P(p.r, add(p.o, const(i * n, 64))), t.e, ln) for i in range(t.n)])
            finally: p.r.info['bound'] = b_
        n = tsize(t)
        w = t.n if t.k in 'if' else 64
        if p.r.kind == 'arr':
            s.acc(st, p.r, p.o, n, 'read', ln)
            v = s.load_arr(st, p.r, p.o, n, ln)
        else:
            v = s.load_obj(st, p.r, p.o, n, t, ln)
        if t.k == 'p':
            return v if isptr(v) or v is UNDEF or isinstance(v, Opaque) else s.i2p(v)
        if isptr(v): v = s.p2i(v)
        if v is UNDEF or isinstance(v, Opaque): return v
        if v.w != w:
            if t.k == 'i' and w < v.w: v = trunc(v, w)   # i1 in a byte, etc
            else: raise Unsup(f'load width {w} of {v.w}')
        return v
    def load_obj(s, st, r, off, n, t, ln):
        if not isc(off):
            return s.load_obj_sym(st, r, off, n, t, ln)
        return s.cell(st, r, scval(off), n, t)
    def cell(s, st, r, o, n, t=None, rs=None):
        x = rs if rs is not None else s.rs(st, r)
        c = x.cells.get(o)
        if c is not None and c[0] == n: return c[1]
        # overlap with existing cells?
        ov = [(a, z, v) for a, (z, v) in x.cells.items() if a < o + n and o < a + z]
        if not ov:
            for lo, hi, srs, sr, d in reversed(x.fb):
                if o >= lo and o + n <= hi: return s.cell(st, sr, o - d, n, t, srs)
                if o < hi and lo < o + n: 
                    raise Unsup('partial overlap with copied range')
            return s.initcell(st, r, o, n, t)
        # compose from bytes
        if len(ov) == 1 and ov[0][0] <= o and ov[0][0] + ov[0][1] >= o + n:
            a, z, v = ov[0]
            v = s.asint(v, z * 8)
            if v.w < z * 8: v = zext(v, z * 8)
            return ext(v, (o - a + n) * 8 - 1, (o - a) * 8)
        pts = sorted({o, o + n} | {max(a, o) for a, _, _ in ov} | {min(a + z, o + n) for a, z, _ in ov})
        res = None
        for a, b in zip(pts, pts[1:]):
            y = s.cell(st, r, a, b - a, None, rs)
            if y is UNDEF: y = const(0, (b - a) * 8)
            y = s.asint(y, (b - a) * 8)
            if y.w < (b - a) * 8: y = zext(y, (b - a) * 8)
            res = y if res is None else concat(y, res)
        return res
    def initcell(s, st, r, o, n, t):
        if r.kind == 'glob':
            c = s.ginit(r)
            if 'bad' in c: raise Unsup('global initialiser')
            if not r.ro and not r.info.get('trust'):
                s.assumptions.add(f'global {r.name} still holds its initial value')
            if o in c and c[o][0] == n: return s.val(st, c[o][1])
            if all(c.get(o + i, (0,))[0] == 1 for i in range(n)):
                v = None
                for i in range(n):
                    b = s.val(st, c[o + i][1]); v = b if v is None else concat(b, v)
                return v
            ks = sorted(k for k in c if isinstance(k, int) and k < o + n and o < k + c[k][0])
            if ks and ks[0] <= o:
                v = None
                for k in ks:
                    b = s.asint(s.val(st, c[k][1]), c[k][0] * 8); v = b if v is None else concat(b, v)
                return ext(v, (o - ks[0] + n) * 8 - 1, (o - ks[0]) * 8)
            raise Unsup(f'global {r.name} cell {o}:{n}')
        if r.init is not None:
            v = r.init(s, st, r, o, n, t)
            if v is not None: return v
        f = r.fields.get(o)
        if f is not None and f[0] == n: return f[1]
        if r.info.get('uninit'):
            return UNDEF
        if t is not None and t.k == 'p': raise Unsup(f'unknown pointer field {r.name}+{o}')
        return var(f'{r.name}.{o}:{n}', n * 8)
    def load_obj_sym(s, st, r, off, n, t, ln):
        size = r.size
        if isinstance(size, T): size = None
        if size is None or size > 8192: raise Unsup(f'symbolic offset into {r.name}: {off}')
        if r.kind == 'glob' and r.ro:
            # constant table
            c = s.ginit(r)
            k, items = lin_of(off)
            g = 0
            import math
            for co, x in items: g = math.gcd(g, abs(sgn(co, 64)))
            if g == n and all(c.get(i, (0,))[0] == n for i in range(0, size, n)) and sgn(k, 64) % n == 0:
                idx = mklin(64, sgn(k, 64) // n, {x: sgn(co, 64) // n for co, x in items})
                vals = [s.val(st, c[i][1]) for i in range(0, size, n)]
                if all(isinstance(v, T) and isc(v) for v in vals):
                    s.oblige(st, ult(idx, const(len(vals), 64)), f'table index in range {r.name} line {ln}')
                    return tbl([v.k for v in vals], n * 8, idx)
        step = n
        k, items = lin_of(off)
        import math
        g = 0
        for co, x in items: g = math.gcd(g, abs(sgn(co, 64)))
        base = sgn(k, 64) % g if g else 0
        cands = [o for o in range(base, size - n + 1, g)] if g else []
        if not cands or len(cands) > 512: raise Unsup(f'symbolic offset into {r.name}')
        lo, hi = ivs(off)
        cands = [o for o in cands if lo <= o <= hi]
        s.oblige(st, bor(*[eq(off, const(o, 64)) for o in cands]), f'index in range {r.name} line {ln}')
        res = s.cell(st, r, cands[-1], n, t)
        for o in cands[-2::-1]: res = vite(eq(off, const(o, 64)), s.cell(st, r, o, n, t), res)
        return res
    def store(s, st, p, v, t, ln=None):
        if isinstance(p, PI): p = s.nonnull(st, p, ln)
        if isinstance(p, PI):
            for c, q in pcases(p):
                s.store_cond(st, q, v, t, c, ln)
            return
        if not isinstance(p, P): raise Unsup(f'store through {p!r}')
        if p.r is NULLR:
            s.aborts.append(('null-store', st.pc, ln)); st.assume(FALSE); return
        if p.r.kind == 'rec':
            s.obl.append((f'write to object owned by the core ({p.r.name}) line {ln}', st.pc, FALSE)); return
        if p.r.ro: 
            s.obl.append((f'write to read-only object {p.r.name} line {ln}', st.pc, FALSE)); return
        if t.k in 'sa':
            for (o, e), x in zip((t.fs if t.k == 's' else [(i * tsize(t.e), t.e) for i in range(t.n)]), v): s.store(st, P(p.r, add(p.o, const(o, 64))), x, e, ln)
            return
        n = tsize(t)
        if p.r.kind == 'arr':
            s.acc(st, p.r, p.o, n, 'write', ln)
            es = p.r.es
            if t.k == 'v':
                lanes = list(v); le = tsize(t.e) if t.e.n >= 8 else 0
                if le == 0: raise Unsup('mask store')
            else: lanes = [v]; le = n
            if es is None: es = le
            out = []
            if all(isinstance(x, T) or x is UNDEF for x in lanes):
                lanes = [const(0, le * 8) if x is UNDEF else x for x in lanes]
                lanes = [zext(x, le * 8) if x.w < le * 8 else x for x in lanes]
                if le == es: out = lanes
                elif le > es:
                    for x in lanes: out += [ext(x, (i + 1) * es * 8 - 1, i * es * 8) for i in range(le // es)]
                else:
                    k = es // le
                    if len(lanes) % k: raise Unsup(f'narrow store {le} into {es}-byte elements of {p.r.name}')
                    for i in range(0, len(lanes), k):
                        r = lanes[i]
                        for j in range(1, k): r = concat(lanes[i + j], r)
                        out.append(r)
            else:
                if le != es: raise Unsup('pointer store size')
                out = lanes
            x = s.wrs(st, p.r); x.log = x.log + (W((), TRUE, p.o, es, out, ln),)
            return
        if t.k == 'v':
            m = tsize(t.e)
            if t.e.n == 1: s.store(st, p, s.asint(v, t.n), ty(f'i{t.n}'), ln); return
            for i in range(t.n): s.store(st, P(p.r, add(p.o, const(i * m, 64))), v[i], t.e, ln)
            return
        if not isc(p.o): s.store_obj_sym(st, p, v, n, t, ln); return
        s.setcell(st, p.r, scval(p.o), n, v)
    def setcell(s, st, r, o, n, v):
        x = s.wrs(st, r)
        ov = [(a, z) for a, (z, _) in x.cells.items() if a < o + n and o < a + z and not (a == o and z == n)]
        for a, z in ov:
            # keep the bytes not overwritten
            for lo, hi in ((a, o), (o + n, a + z)):
                if lo < hi:
                    b = s.cell(st, r, lo, hi - lo, None, x); 
                    x.cells[('t', lo)] = (hi - lo, b)
            del x.cells[a]
            for k in [k for k in x.cells if isinstance(k, tuple)]: x.cells[k[1]] = x.cells.pop(k)
        x.cells[o] = (n, v)
    def store_obj_sym(s, st, p, v, n, t, ln):
        size = p.r.size
        if size is None or isinstance(size, T) or size > 2048: raise Unsup(f'symbolic store into {p.r.name}')
        import math
        k, items = lin_of(p.o); g = 0
        for co, x in items: g = math.gcd(g, abs(sgn(co, 64)))
        base = sgn(k, 64) % g
        lo, hi = ivs(p.o)
        cands = [o for o in range(base, size - n + 1, g) if lo <= o <= hi]
        if not cands or len(cands) > 256: raise Unsup(f'symbolic store into {p.r.name}')
        s.oblige(st, bor(*[eq(p.o, const(o, 64)) for o in cands]), f'store index in range {p.r.name} line {ln}')
        for o in cands: s.setcell(st, p.r, o, n, vite(eq(p.o, const(o, 64)), v, s.cell(st, p.r, o, n, t)))
    def store_cond(s, st, p, v, t, c, ln):
        if c is TRUE: return s.store(st, p, v, t, ln)
        if p.r.kind == 'arr':
            before = s.rs(st, p.r).log
            s.store(st, p, v, t, ln)
            x = s.wrs(st, p.r); x.log = before + tuple(w.guarded(c) for w in x.log[len(before):])
        else:
            old = s.load(st, p, t, ln); s.store(st, p, vite(c, v, old), t, ln)
    # ---------------------------------------------- arrays
    def base_elem(s, st, r, off, es):
        if r.init is not None:
            v = r.init(s, st, r, off, es, None)
            if v is not None: return v
        if r.info.get('zero'): return const(0, es * 8)
        if r.info.get('uninit'): return UNDEF
        cs = decomp(off, r.strides)
        return uf(f'{r.name}', es * 8, cs)
    def load_arr(s, st, r, off, n, ln=None):
        es = r.es
        if es is None:
            lg = s.rs(st, r).log; es = lg[-1].es if lg else n
        if n == es: return s.read_elem(st, r, off, es)
        if n > es:
            v = None
            for i in range(n // es):
                e = s.read_elem(st, r, add(off, const(i * es, 64)), es)
                if e is UNDEF: e = const(0, es * 8)
                v = e if v is None else concat(e, v)
            return v
        # narrower than the element: needs a known position inside it
        k, items = lin_of(off)
        if all(sgn(co, 64) % es == 0 for co, _ in items):
            m = sgn(k, 64) % es
            if m + n <= es:
                e = s.read_elem(st, r, sub(off, const(m, 64)), es)
                return ext(e, (m + n) * 8 - 1, m * 8)
        raise Unsup(f'narrow load of {n} from {es}-byte elements of {r.name} at {show(off)[:200]}')
    def read_elem(s, st, r, off, es, rs=None):
        x = rs if rs is not None else s.rs(st, r)
        return s.read_log(st, r, off, es, x.log, len(x.log) - 1)
    def read_log(s, st, r, off, es, log, i):
        # newest first; collect (cond, value) until a definite hit
        conds = []
        while i >= 0:
            w = log[i]
            m = s.match(st, r, w, off, es)
            if m is not None:
                c, v = m
                conds.append((c, v))
                if c is TRUE: break
            i -= 1
        else:
            conds.append((TRUE, s.base_elem(st, r, off, es)))
        if s.curloop:
            left = None
            for f in s.curloop:
                if i < f.marks.get(r, 0):
                    if left is None: left = band(*[bnot(c) for c, _ in conds if c is not TRUE])
                    if left is not FALSE: f.reads.append((r, off, es, st.pc, left))
        res = conds[-1][1]
        for c, v in reversed(conds[:-1]): res = vite(c, v, res)
        return res
    def match(s, st, r, w, off, es):
        """None if the write cannot touch the element at off, else (condition, value)"""
        if w.es != es: raise Unsup(f'element size mismatch reading {r.name}: {es} vs {w.es}')
        n = len(w.vals)
        tgt = decomp(off, r.strides); src = decomp(w.off, r.strides)
        sig = {}; cond = []
        ivs_left = dict(w.ivs)
        coords = list(zip(tgt, src))
        lane = None
        last = len(coords) - 1
        # iterate: solve coordinates with exactly one unsolved iteration variable
        pend = list(range(len(coords)))
        progress = True
        while pend and progress:
            progress = False
            for ci in list(pend):
                tg, sc = coords[ci]
                sc = subst(sc, sig) if sig else sc
                vs = [v for v in ivs_left if v not in sig and v in fv(sc)]
                c0, items = lin_of(sc)
                span = n * es if ci == last else 1   # bytes covered in the column coordinate
                if len(vs) == 0:
                    d = sub(tg, sc)
                    if ci == last:
                        if isc(d):
                            k = scval(d)
                            if k % es or not 0 <= k < span:
                                if -es < k < span and k % es: raise Unsup('misaligned overlap')
                                return None
                            lane = k // es
                        else:
                            lo, hi = ivs(d)
                            if hi < 0 or lo >= span: return None
                            q, rem = divlin(d, es)
                            if rem is None: raise Unsup(f'unknown alignment {d}')
                            if rem: return None
                            lane = q
                    else:
                        if isc(d):
                            if d.k != 0: return None
                        else: cond.append(eq(tg, sc))
                    pend.remove(ci); progress = True
                elif len(vs) == 1 or ci != last or True:
                    # choose the variable with the largest coefficient if several (mixed radix)
                    cand = [(abs(sgn(co, 64)), co, x) for co, x in items if x in vs]
                    nonlin = [x for co, x in items if x not in vs and (fv(x) & set(vs))]
                    if nonlin: continue
                    if len(vs) > 1:
                        # mixed radix: the other variables and the element stay below the largest step
                        cand.sort(key=lambda q: -q[0])
                        kabs, co, x = cand[0]
                        if sgn(co, 64) <= 0 or kabs & (kabs - 1) or any(sgn(q[1], 64) <= 0 for q in cand[1:]): continue
                        top = span if ci == last else 1
                        for q in cand[1:]: top += q[0] * max(0, min(ivs(q[2])[1], ivs(subst(ivs_left[q[2]], sig))[1] - 1))
                        if top > kabs: continue
                        vz = {q[2] for q in cand}
                        d = sub(tg, mklin(64, c0, {y: k for y, k in ((y, k) for k, y in items) if y not in vz}))
                        sig[x] = ashr(d, const(kabs.bit_length() - 1, 64))
                        nn = subst(ivs_left[x], sig)
                        cond.append(sle(Z64, sig[x])); cond.append(slt(sig[x], nn)); progress = True
                        continue
                    kabs, co, x = cand[0]; co = sgn(co, 64)
                    rest = mklin(64, c0, {y: k for k, y in items if y is not x})
                    d = sub(tg, rest)           # co*x + [0,span) covers d
                    if ci == last:
                        if kabs < span: raise Unsup(f'overlapping iterations: step {kabs} span {span}')
                        q, rem = divlin(d, kabs)
                        if rem is None:
                            q2, rem2 = divlin(d, es)
                            if rem2 is None: raise Unsup(f'alignment of {d} by {es}')
                            if rem2: return None
                            # symbolic division
                            step = kabs // es
                            qq = q2
                            lo, hi = ivs(qq)
                            if lo < 0:
                                cond.append(sle(Z64, qq))
                            xq = udiv(qq, const(step, 64)); xr = urem(qq, const(step, 64))
                            if co < 0: raise Unsup('negative symbolic step')
                            sig[x] = xq; lane = xr
                            if n < step: cond.append(ult(xr, const(n, 64)))
                        else:
                            # d = kabs*q + rem, 0<=rem<kabs
                            if co > 0: sig[x] = q; k = rem
                            else:
                                # -kabs*x + k = kabs*q + rem  => x=-q, k=rem
                                sig[x] = neg(q); k = rem
                            if k % es: 
                                return None
                            if k >= span: return None
                            lane = k // es
                    else:
                        q, rem = divlin(d, kabs)
                        if rem is None:
                            if co < 0: d = neg(d)
                            if kabs & (kabs - 1): raise Unsup('row step')
                            cond.append(eq(and_(d, const(kabs - 1, 64)), Z64)); sig[x] = ashr(d, const(kabs.bit_length() - 1, 64))
                        elif rem: return None
                        else: sig[x] = q if co > 0 else neg(q)
                    nn = subst(ivs_left[x], sig)
                    cond.append(sle(Z64, sig[x])); cond.append(slt(sig[x], nn))
                    pend.remove(ci); progress = True
        if pend: raise Unsup(f'cannot solve write location {w.off} for {off}')
        for v, nn in w.ivs:
            if v not in sig:
                # location does not depend on v: the last iteration wins
                nn = subst(nn, sig)
                if v in fv(w.cond): raise Unsup('conditional repeated write')
                sig[v] = sub(nn, const(1, 64)); cond.append(slt(Z64, nn))
        cond.append(subst(w.cond, sig) if sig else w.cond)
        c = band(*cond)
        if c is FALSE: return None
        if isinstance(lane, T):
            if isc(lane): lane = lane.k
            else:
                vals = [vsubst(v, sig) for v in w.vals]
                res = vals[-1]
                for k in range(len(vals) - 2, -1, -1): res = vite(eq(lane, const(k, 64)), vals[k], res)
                if not w.ivs or True:
                    c = band(c, sle(Z64, lane), slt(lane, const(n, 64)))
                return None if c is FALSE else (c, res)
        return c, (vsubst(w.vals[lane], sig) if sig else w.vals[lane])
    # ---------------------------------------------- block copies
    def elem_size(s, r, dflt): return r.es or dflt
    def memcpy(s, st, dst, src, n, ln=None):
        if isinstance(dst, PI):
            raise Unsup('memcpy to conditional pointer')
        if isinstance(n, T) and isc(n) and n.k == 0: return
        if isinstance(src, PI):
            # conditional source: element-wise
            if isc(n) and n.k in (1, 2, 4, 8):
                t = ty(f'i{n.k*8}'); s.store(st, dst, s.load(st, src, t, ln), t, ln); return
            if isc(n) and n.k <= 64 and n.k % 4 == 0:
                t = ty('i32'); vals = [s.load(st, padd(src, const(o, 64)), t, ln) for o in range(0, n.k, 4)]
                for o, v in zip(range(0, n.k, 4), vals): s.store(st, padd(dst, const(o, 64)), v, t, ln)
                return
            raise Unsup('memcpy from conditional pointer')
        if src.r.kind == 'rec' and isc(n):
            for o, k in src.r.info['layout'](src.o, n.k):
                t = ty(f'i{8*k}'); s.store(st, padd(dst, const(o, 64)), s.load(st, padd(src, const(o, 64)), t, ln), t, ln)
            return
        if dst.r.kind == 'arr' or src.r.kind == 'arr':
            if dst.r.kind != 'arr' and isc(n) and isc(dst.o) and src.r.kind == 'arr':
                es = src.r.es or 1
                for i in range(n.k // es):
                    s.setcell(st, dst.r, scval(dst.o) + i * es, es, s.load_arr(st, src.r, add(src.o, const(i * es, 64)), es, ln))
                return
            if src.r.kind != 'arr' and dst.r.kind == 'arr' and isc(n) and n.k <= 4096:
                es = dst.r.es or 1
                out = [s.load_obj(st, src.r, add(src.o, const(i * es, 64)), es, None, ln) for i in range(n.k // es)]
                x = s.wrs(st, dst.r); x.log = x.log + (W((), TRUE, dst.o, es, out, ln),)
                return
            es = dst.r.es or src.r.es
            if src.r.es is not None and dst.r.es is not None and src.r.es != dst.r.es:
                es = min(src.r.es, dst.r.es)
                if dst.r.es != es: raise Unsup(f'memcpy between element sizes {src.r.es} and {dst.r.es}')
            if es is None: es = 1
            q, rem = divlin(n, es) if isinstance(n, T) else divlin(const(n, 64), es)
            if rem != 0: raise Unsup(f'memcpy length {n} not a multiple of {es}')
            if isc(q) and 1 <= q.k <= 4 and src.r.kind == 'arr' and dst.r.kind == 'arr':
                s.acc(st, src.r, src.o, n, 'read', ln); s.acc(st, dst.r, dst.o, n, 'write', ln)
                vals = tuple(s.load_arr(st, src.r, add(src.o, const(k * es, 64)), es, ln) for k in range(q.k))
                y = s.wrs(st, dst.r); y.log = y.log + (W((), TRUE, dst.o, es, vals, ln),)
                return
            rows = s.flat2d(st, dst.r, dst.o, n)
            so_ = src.o; col0 = None
            if rows is not None and src.r.strides:
                co_ = decomp(src.o, src.r.strides)
                if co_[-1] is Z64: col0 = True
                else: col0 = s.must(st, eq(co_[-1], Z64)); so_ = sub(src.o, co_[-1])
            if col0:
                src = P(src.r, so_)
                A, u = dst.r.strides[-1]; A2, u2 = src.r.strides[-1]; S = scale(A, u); S2 = scale(A2, u2)
                if S is S2 or s.must(st, eq(S, S2)):
                    rv = fresh('fr', 64, 0, 1 << 31); cv = fresh('fc', 64, 0, 1 << 31)
                    ex_ = (sle(Z64, rv), slt(rv, rows))
                    s.acc(st, dst.r, add(dst.o, mul(rv, S)), S, 'write', ln, ex_); s.acc(st, src.r, add(src.o, mul(rv, S2)), S2, 'read', ln, ex_)
                    x = s.rs(st, src.r); val = s.read_log(st, src.r, add(src.o, add(mul(rv, S2), scale(cv, es))), es, x.log, len(x.log) - 1)
                    y = s.wrs(st, dst.r); y.log = y.log + (W(((rv, rows), (cv, scale(A, u // es))), TRUE, add(dst.o, add(mul(rv, S), scale(cv, es))), es, (val,), ln),)
                    return
            nz = (slt(Z64, n),) if not isc(n) else ()
            s.acc(st, src.r, src.o, n, 'read', ln, nz); s.acc(st, dst.r, dst.o, n, 'write', ln, nz)
            i = fresh('mc', 64, 0, max(0, ivs(q)[1]))
            so = add(src.o, scale(i, es))
            x = s.rs(st, src.r)
            val = s.read_log(st, src.r, so, es, x.log, len(x.log) - 1) if src.r.es == es else s.load_arr(st, src.r, so, es, ln)
            y = s.wrs(st, dst.r)
            y.log = y.log + (W(((i, q),), TRUE, add(dst.o, scale(i, es)), es, (val,), ln),)
            return
        if not isc(n): raise Unsup(f'memcpy symbolic size between objects {dst} {src}')
        if not (isc(dst.o) and isc(src.o)): raise Unsup('memcpy symbolic offset between objects')
        n = n.k; d = scval(dst.o) - scval(src.o); lo = scval(dst.o)
        srs = s.rs(st, src.r)
        s.havoc_range(st, dst.r, lo, n)
        x = s.wrs(st, dst.r)
        x.fb = x.fb + ((lo, lo + n, srs, src.r, d),)
    def havoc_range(s, st, r, lo, n):
        x = s.wrs(st, r)
        for a in list(x.cells):
            z, v = x.cells[a]
            if a < lo + n and lo < a + z:
                if a < lo or a + z > lo + n: 
                    s.setcell(st, r, max(a, lo), min(a + z, lo + n) - max(a, lo), const(0, 8 * (min(a + z, lo + n) - max(a, lo))))
                    x = st.mem[r]
                    for b in list(x.cells):
                        if b >= lo and b + x.cells[b][0] <= lo + n: del x.cells[b]
                else: del x.cells[a]
    def flat2d(s, st, r, off, n):
        """number of whole rows covered by n bytes starting at the row start off, or None"""
        if not r.strides or not isinstance(n, T): return None
        A, u = r.strides[-1]
        try: co = decomp(off, r.strides)
        except Unsup: return None
        if co[-1] is not Z64: return None
        try:
            d = decomp(n, ((A, u),))
            if d[1] is Z64 and d[0] is not Z64: return d[0]
        except Unsup: pass
        # terms the path condition makes equal to the row pitch
        S = scale(A, u); cls = [S]
        for x in cls:
            for c in st.pc:
                if c.op == 'eq' and c.a[0].w == 64:
                    for p, q in (c.a, c.a[::-1]):
                        k = ratio(x, p)
                        if k and scale(q, k) not in cls: cls.append(scale(q, k))
        for y in cls[1:]:
            rest = factor_of(n, y)
            if rest is not None: return rest
        for c in st.pc:
            if c.op != 'eq' or c.a[0].w != 64: continue
            for x, y in (c.a, c.a[::-1]):
                k0, items = lin_of(x)
                if k0 != 0 or len(items) != 1 or items[0][1] is not A: continue
                k = sgn(items[0][0], 64)
                if k <= 0 or u % k: continue
                rest = factor_of(n, scale(y, u // k))
                if rest is not None: return rest
        return None
    def memset(s, st, dst, byte, n, ln=None):
        if isinstance(dst, PI): raise Unsup('memset cond ptr')
        if dst.r.kind == 'arr':
            es = dst.r.es or 1
            rows = s.flat2d(st, dst.r, dst.o, n)
            if rows is not None:
                A, u = dst.r.strides[-1]; S = scale(A, u); rv = fresh('fr', 64, 0, 1 << 31); cv = fresh('fc', 64, 0, 1 << 31)
                s.acc(st, dst.r, add(dst.o, mul(rv, S)), S, 'write', ln, (sle(Z64, rv), slt(rv, rows)))
                v = byte
                for _ in range(es - 1): v = concat(byte, v)
                y = s.wrs(st, dst.r); y.log = y.log + (W(((rv, rows), (cv, scale(A, u // es))), TRUE, add(dst.o, add(mul(rv, S), scale(cv, es))), es, (v,), ln),)
                return
            q, rem = divlin(n, es)
            if rem != 0: raise Unsup('memset length')
            v = byte
            s.acc(st, dst.r, dst.o, n, 'write', ln, (slt(Z64, n),) if not isc(n) else ())
            for _ in range(es - 1): v = concat(byte, v)
            i = fresh('ms', 64, 0, max(0, ivs(q)[1]))
            y = s.wrs(st, dst.r); y.log = y.log + (W(((i, q),), TRUE, add(dst.o, scale(i, es)), es, (v,), ln),)
            return
        if not isc(n) or not isc(dst.o): raise Unsup('memset symbolic')
        if not isc(byte): raise Unsup('memset byte')
        lo = scval(dst.o)
        s.havoc_range(st, dst.r, lo, n.k)
        zr = Region('fill', 'obj', init=lambda ex, st, r, o, k, t, b=byte.k: (NULL if (t is not None and t.k == 'p' and b == 0) else const(int.from_bytes(bytes([b]) * k, 'little'), 8 * k)))
        x = s.wrs(st, dst.r); x.fb = x.fb + ((lo, lo + n.k, RS(), zr, 0),)

    # ------------------------------------------------ merging
    def merge(s, a, b, live):
        """merge two states at a join; None if they must stay separate"""
        if a.exc is not b.exc and a.exc != b.exc: return None
        if len(a.ev) != len(b.ev): return None
        for x, y in zip(a.ev, b.ev):
            if x is not y and not s.ev_same(x, y): return None
        if a.gh is not b.gh and a.gh != b.gh: return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]: n += 1
        ra = a.pc[n:]; rb = b.pc[n:]
        ca = band(*ra); cb = band(*rb)
        if ca is FALSE: return b
        if cb is FALSE: return a
        c = ca
        if ra and rb:
            if bnot(ra[0]) is rb[0]: c = ra[0]
            elif bnot(ra[0]) in rb: c = ra[0]
            elif bnot(rb[0]) in ra: c = bnot(rb[0])
        r = State()
        r.ev = a.ev; r.exc = a.exc; r.gh = a.gh
        r.pc = a.pc[:n]
        try:
            if a.env is b.env: r.env = a.env
            else:
                for k in (live if live is not None else a.env):
                    x = a.env.get(k); y = b.env.get(k)
                    if x is None or y is None: continue
                    r.env[k] = vite(c, x, y)
            for reg in set(a.mem) | set(b.mem):
                x = a.mem.get(reg); y = b.mem.get(reg)
                if x is y: r.mem[reg] = x; continue
                if x is None: 
                    if reg.kind in ('heap', 'alloca') or reg.info.get('local'): r.mem[reg] = y; continue
                    x = RS()
                if y is None:
                    if reg.kind in ('heap', 'alloca') or reg.info.get('local'): r.mem[reg] = x; continue
                    y = RS()
                r.mem[reg] = s.merge_rs(a, b, reg, x, y, c)
        except Unsup as e:
            return None
        r.assume(bor(ca, cb))
        r.nsw = a.nsw if a.nsw is b.nsw else {k: v for k, v in a.nsw.items() if b.nsw.get(k) is v}
        return r
    def ev_same(s, x, y):
        if len(x) != len(y): return False
        for p, q in zip(x, y):
            if p is q: continue
            if isinstance(p, (P, PI, V, Agg)) or isinstance(q, (P, PI, V, Agg)):
                if not same(p, q): return False
            elif isinstance(p, tuple) and isinstance(q, tuple):
                if not s.ev_same(p, q): return False
            elif isinstance(p, (T, Region, W)) or isinstance(q, (T, Region, W)): return False
            elif p != q: return False
        return True
    def merge_rs(s, a, b, reg, x, y, c):
        r = RS()
        fb = 0
        if x.fb != y.fb:
            n = 0
            while n < len(x.fb) and n < len(y.fb) and x.fb[n] is y.fb[n]: n += 1
            if not (n == len(x.fb) or n == len(y.fb)): 
                # materialise both
                pass
            # materialise cells of the extra ranges through known leaf layout
            extra = list(x.fb[n:]) + list(y.fb[n:])
            cells = set()
            for lo, hi, srs, sr, d in extra:
                if hi - lo > 256: raise Unsup('merge of large copied ranges')
                pts = set()
                for z in (srs,):
                    for o, (k, v) in z.cells.items():
                        if lo <= o + d and o + d + k <= hi: pts.add((o + d, k))
                for o, f in sr.fields.items():
                    if lo <= o + d and o + d + f[0] <= hi: pts.add((o + d, f[0]))
                if sr.kind == 'glob':
                    g = s.ginit(sr)
                    if 'bad' in g: raise Unsup('global initialiser')
                    for o, e in g.items():
                        if isinstance(o, int) and lo <= o + d and o + d + e[0] <= hi: pts.add((o + d, e[0]))
                    if sum(k for o, k in pts) < hi - lo: raise Unsup('merge of a copied part of a global')
                cov = sum(k for o, k in pts)
                if cov < hi - lo and sr.name == 'fill':
                    pts = {(o, 4 if o % 8 or o + 8 > hi else 8) for o in range(lo, hi, 8)} if False else pts
                    raise Unsup('merge fill')
                cells |= pts
            for o, k in cells:
                if o in x.cells or o in y.cells: continue
                r.cells[o] = (k, vite(c, s.cell(a, reg, o, k, None, x), s.cell(b, reg, o, k, None, y)))
            r.fb = x.fb[:n]
        else: r.fb = x.fb
        for o in set(x.cells) | set(y.cells):
            p = x.cells.get(o); q = y.cells.get(o)
            if p is not None and q is not None:
                if p[0] != q[0]: raise Unsup('merge cell size')
                r.cells[o] = p if p[1] is q[1] else (p[0], vite(c, p[1], q[1]))
            elif p is None:
                z = q[0]; tt = ty('ptr') if isptr(q[1]) else None
                # a piece may exist in x with different granularity
                if any(isinstance(k, int) and k < o + z and o < k + x.cells[k][0] for k in x.cells): raise Unsup('merge cell layout')
                r.cells[o] = (z, vite(c, s.mcell(a, reg, o, z, tt, x), q[1]))
            else:
                z = p[0]; tt = ty('ptr') if isptr(p[1]) else None
                if any(isinstance(k, int) and k < o + z and o < k + y.cells[k][0] for k in y.cells): raise Unsup('merge cell layout')
                r.cells[o] = (z, vite(c, p[1], s.mcell(b, reg, o, z, tt, y)))
        if x.log is y.log or x.log == y.log: r.log = x.log
        else:
            n = 0
            while n < len(x.log) and n < len(y.log) and x.log[n] is y.log[n]: n += 1
            r.log = x.log[:n] + tuple(w.guarded(c) for w in x.log[n:]) + tuple(w.guarded(bnot(c)) for w in y.log[n:])
        return r
    def mcell(s, st, reg, o, z, tt, rs):
        v = s.cell(st, reg, o, z, tt, rs)
        if tt is not None and isinstance(v, T): v = s.i2p(v)
        return v
    def merge_all(s, sts, live):
        out = []
        for st in sts:
            if FALSE in st.pc: continue
            for i, o in enumerate(out):
                m = s.merge(o, st, live)
                if m is not None: out[i] = m; break
            else: out.append(st)
        return out

    # ------------------------------------------------ functions
    def call(s, name, args, st):
        """run a function body; returns ([(state, value)], [exception states])"""
        fn = s.mod.fn(name)
        if fn is None: raise Unsup(f'no body for {name}')
        s.inlined.add(fn.dem)
        if s.depth > 40: raise Unsup('call depth (recursion without contract)')
        s.depth += 1
        saved = st.env
        st = st.copy(); st.env = {i: a for i, a in enumerate(args)}
        fr = Frame(fn)
        s.run_region(fr, None, [(None, st)], 0)
        s.depth -= 1
        outs = []
        for x, v in fr.rets:
            x.env = {'ret': v} if v is not None else {}
            outs.append(x)
        outs = s.merge_all(outs, ['ret'])
        res = []
        for x in outs:
            v = x.env.get('ret'); x.env = dict(saved); res.append((x, v))
        ex = []
        for x in fr.excs: x.env = dict(saved); ex.append(x)
        return res, ex
    def run_region(s, fr, L, entries, entry, have_phis=False):
        """execute blocks of loop L (None: whole function) from entry. Returns (exits, backs)"""
        fn = fr.fn
        pend = {entry: list(entries)}
        exits = []; backs = []
        blocks = fn.loops[L] if L is not None else None
        first = True
        while pend:
            b = min(pend, key=lambda x: fn.order[x])
            inc = pend.pop(b)
            if b in fn.loops and b != L:
                outs = s.exec_loop(fr, b, inc)
            else:
                sts = []
                if b == L and have_phis and first:
                    sts = [x for _, x in inc]
                else:
                    for p, x in inc:
                        y = s.phis(fn, b, p, x)
                        sts.append(y)
                first = False
                sts = s.merge_all(sts, fn.live_in[b] | fn.phidefs[b])
                outs = []
                for x in sts: outs += s.exec_block(fr, b, x)
            for p, t, x in outs:
                if blocks is not None:
                    if t == L: backs.append((p, x)); continue
                    if t not in blocks: exits.append((p, t, x)); continue
                pend.setdefault(t, []).append((p, x))
        return exits, backs
    def phis(s, fn, b, p, st):
        ins = fn.blocks[b]
        if not ins or ins[0]['op'] != 'phi': return st
        st = st.copy(); new = {}
        for i in ins:
            if i['op'] != 'phi': break
            for v, q in i['in']:
                if q == p: new[i['id']] = s.val(st, v); break
            else: raise Unsup('phi')
        st.env.update(new)
        return st
    def exec_block(s, fr, b, st):
        fn = fr.fn
        ins = fn.blocks[b]
        k = 0
        while k < len(ins) and ins[k]['op'] == 'phi': k += 1
        return s.exec_from(fr, b, k, st.copy())
    def exec_from(s, fr, b, k, st):
        fn = fr.fn; ins = fn.blocks[b]
        while True:
            i = ins[k]; op = i['op']
            s.ninst += 1
            if s.ninst > s.maxinst: raise Unsup('instruction budget')
            if op == 'br':
                if 'cond' not in i: return [(b, i['succ'][0], st)]
                c = s.val(st, i['cond'])
                if c is UNDEF: c = fresh('undef', 1)
                t, f = i['succ']
                if t == f: return [(b, t, st)]
                if isc(c): return [(b, t if c.k else f, st)]
                out = []
                ft = s.feas(st, c); ff = s.feas(st, bnot(c))
                if ft and ff:
                    a = st.copy().assume(c); z = st.assume(bnot(c))
                    return [(b, t, a), (b, f, z)]
                if ft: return [(b, t, st)]
                if ff: return [(b, f, st)]
                return []
            if op == 'switch':
                c = s.val(st, i['cond'])
                if isc(c):
                    for v, t in i['cases']:
                        if int(v[2]) == c.k: return [(b, t, st)]
                    return [(b, i['def'], st)]
                out = []; rest = st.copy()
                bydst = {}
                for v, t in i['cases']: bydst.setdefault(t, []).append(eq(c, const(int(v[2]), c.w)))
                for t, cs in bydst.items():
                    q = bor(*cs)
                    if s.feas(rest, q): out.append((b, t, rest.copy().assume(q)))
                    rest.assume(bnot(q))
                if FALSE not in rest.pc and solve.feasible(rest.pc): 
                    # merge default with the same destination
                    out.append((b, i['def'], rest))
                return out
            if op == 'ret':
                v = s.val(st, i['ops'][0]) if i.get('ops') else None
                fr.rets.append((st, v)); return []
            if op == 'unreachable': return []
            if op == 'resume': fr.excs.append(st); return []
            if op in ('call', 'invoke'):
                try: outs, excs = s.do_call(fr, st, i)
                except Unsup as e:
                    if not getattr(e, 'loc', None): e.loc = (fn.dem, i.get('ln'))
                    raise
                if op == 'invoke':
                    res = []
                    for x, v in outs:
                        if 'id' in i: x.env[i['id']] = v
                        res.append((b, i['normal'], x))
                    for x in excs: res.append((b, i['unwind'], x))
                    return res
                fr.excs.extend(excs)
                if not outs: return []
                if len(outs) == 1:
                    st, v = outs[0]
                    if 'id' in i: st.env[i['id']] = v
                else:
                    res = []
                    for x, v in outs:
                        if 'id' in i: x.env[i['id']] = v
                        res += s.exec_from(fr, b, k + 1, x)
                    return res
            else:
                try: s.inst(st, i, fn)
                except Unsup as e:
                    if not getattr(e, 'loc', None): e.loc = (fn.dem, i.get('ln'))
                    raise
                if FALSE in st.pc: return []
            k += 1
    # ------------------------------------------------ instructions
    def lanes(s, f, *vs):
        if isinstance(vs[0], V): return V([f(*x) for x in zip(*vs)])
        return f(*vs)
    def inst(s, st, i, fn):
        op = i['op']
        if op == 'getelementptr':
            if i.get('bad'): raise Unsup('gep')
            p = s.val(st, i['base']); o = const(i['off'], 64)
            for v, sc, t in i['var']:
                x = s.val(st, v)
                x = s.sx(st, x, 64)
                o = add(o, scale(x, sc))
            st.env[i['id']] = padd(p, o); return
        if op == 'load':
            st.env[i['id']] = s.load(st, s.val(st, i['ops'][0]), ty(i['ty']), i.get('ln')); return
        if op == 'store':
            s.store(st, s.val(st, i['ops'][1]), s.val(st, i['ops'][0]), ty(i['vty']), i.get('ln')); return
        if op == 'atomicrmw':
            # other threads may write the variable at any time: every access reads an arbitrary value
            st.env[i['id']] = fresh('atomic', ty(i['ty']).n); s.assumptions.add('an atomic variable holds an arbitrary value at every access (interference by other threads)'); return
        if op == 'alloca':
            t = ty(i['aty']); n = i['size']
            c = s.val(st, i['cnt'])
            if not isc(c): raise Unsup('vla')
            n *= c.k
            s.allocs += 1
            ls = set(tsize(l) for _, l in list(leaves(t))[:64]) if n > 1024 else None
            if n > 1024 and len(ls) == 1: r = Region(f'{fn.name}.a{i["id"]}.{s.allocs}', 'arr', es=ls.pop(), size=n, info={'uninit': True, 'local': True})
            else: r = Region(f'{fn.name}.a{i["id"]}.{s.allocs}', 'obj', size=n, info={'uninit': True, 'local': True})
            st.env[i['id']] = P(r); return
        a = [s.val(st, x) for x in i['ops']] if 'ops' in i else []
        st.env[i['id']] = s.compute(st, i, a)
    def sx(s, st, x, w):
        if x.w == w: return x
        y = st.nsw.get(x)
        if y is not None and y.w == w: return y
        return sext(x, w)
    def note_nsw(s, st, r, a, b, f):
        if r.w >= 64 or isc(r) or r.w == 1: return
        x = sext(r, 64)
        if x.op != 'sext': return
        w = f(s.sx(st, a, 64), s.sx(st, b, 64))
        if w is x: return
        st.nsw = dict(st.nsw); st.nsw[r] = w
        s.assumptions.add('signed integer overflow does not occur (C++ makes it undefined; clang nsw facts are used)')
    def compute(s, st, i, a):
        op = i['op']; t = ty(i['ty'])
        if op in BIN:
            f = BIN[op]
            def g(x, y):
                if x is UNDEF or y is UNDEF: return UNDEF
                if isptr(x): x = s.p2i(x)
                if isptr(y): y = s.p2i(y)
                if isinstance(x, Opaque) or isinstance(y, Opaque): raise Unsup('opaque arithmetic')
                if op == 'or' and i.get('disjoint'): return add(x, y)
                r = f(x, y)
                if i.get('nsw') and not isinstance(a[0], V):
                    if op == 'add': s.note_nsw(st, r, x, y, add)
                    elif op == 'sub': s.note_nsw(st, r, x, y, sub)
                    elif op == 'mul': s.note_nsw(st, r, x, y, mul)
                    elif op == 'shl' and isc(y): s.note_nsw(st, r, x, y, lambda p, q: scale(p, 1 << y.k))
                return r
            if op in ('sdiv', 'udiv', 'srem', 'urem') and not isinstance(a[0], V) and not isc(a[1]):
                nz = ne(a[1], const(0, a[1].w))
                if not s.must(st, nz): s.aborts.append(('div-by-zero', st.pc + (bnot(nz),), i.get('ln')))
            return s.lanes(g, *a)
        if op in ('zext', 'sext', 'trunc'):
            w = (t.e if t.k == 'v' else t).n
            def g(x):
                if x is UNDEF: return UNDEF
                if isptr(x): x = s.p2i(x)
                if op == 'zext':
                    if i.get('nneg'): return s.sx(st, x, w) if w == 64 and ivs(x)[0] < 0 and x in st.nsw else zext(x, w)
                    if x.w == 1: return zext1(x, w)
                    return zext(x, w)
                if op == 'sext': return s.sx(st, x, w)
                return trunc(x, w)
            return s.lanes(g, *a)
        if op == 'icmp':
            pr = i['pred']
            def g(x, y):
                if isptr(x) or isptr(y): return s.pcmp(st, pr, x, y)
                if x is UNDEF or y is UNDEF: return fresh('undef', 1)
                return ICMP[pr](x, y)
            return s.lanes(g, *a)
        if op == 'select':
            c, x, y = a
            if isinstance(c, V): return V([vite(k if k is not UNDEF else TRUE, p, q) for k, p, q in zip(c, x, y)])
            if c is UNDEF: return y
            return vite(c, x, y)
        if op == 'bitcast': return s.bitcast(a[0], ty(i['oty'][0]), t)
        if op == 'freeze':
            if a[0] is UNDEF: return const(0, t.n) if t.k in 'if' else a[0]
            return a[0]
        if op in ('ptrtoint',):
            x = s.p2i(a[0]); return x if t.n == 64 else trunc(x, t.n)
        if op == 'inttoptr': return s.i2p(a[0])
        if op == 'extractvalue':
            v = a[0]
            for k in i['idx']: v = v[k]
            return v
        if op == 'insertvalue':
            def ins(v, ix):
                l = list(v); l[ix[0]] = ins(l[ix[0]], ix[1:]) if len(ix) > 1 else a[1]; return Agg(l)
            return ins(a[0], i['idx'])
        if op == 'extractelement':
            if not isc(a[1]): raise Unsup('extractelement')
            return a[0][a[1].k]
        if op == 'insertelement':
            if not isc(a[2]): raise Unsup('insertelement')
            l = list(a[0]); l[a[2].k] = a[1]; return V(l)
        if op == 'shufflevector':
            n = len(a[0]); l = list(a[0]) + list(a[1])
            return V([UNDEF if m < 0 else l[m] for m in i['mask']])
        if op in FBIN:
            return s.lanes(lambda x, y: UNDEF if x is UNDEF or y is UNDEF else fop(FBIN[op], x.w, (x, y)), *a)
        if op == 'fneg': return s.lanes(fneg, a[0])
        if op == 'fcmp': return s.lanes(lambda x, y: fcmp(i['pred'], x, y), *a)
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            w = (t.e if t.k == 'v' else t).n
            def g(x):
                if x.op == 'c':
                    r = cvtfold(x, op, x.w, w)
                    if r is not None: return r
                if op == 'uitofp' and x.op == 'zext': return mk('cvt', w, (x.a[0],), ('u', w)) 
                if op == 'uitofp' and ivs(x)[0] >= 0: return mk('cvt', w, (x,), ('s', x.w, w))
                if op == 'sitofp':
                    if x.op == 'zext': return mk('cvt', w, (x.a[0],), ('u', w))
                    return mk('cvt', w, (x,), ('s', x.w, w))
                if op == 'fpext' and x.w == 16 and w == 32: return mk('cvt', 32, (x,), 'fromhalf')
                if op == 'fptrunc' and x.w == 32 and w == 16: return mk('cvt', 16, (x,), 'half')
                r = mk('cvt', w, (x,), (op, x.w, w)); return REPL.get(r, r)
            return s.lanes(g, a[0])
        if op == 'landingpad':
            s.landed = st.exc
            return Agg([P(Region('exc', 'opaque')), var('ehsel', 32)]) if st.exc is None else Agg([P(st.exc[1]), var('typeid:' + st.exc[0], 32)])
        if op in ('fence',): return None
        raise Unsup('instruction ' + op)
    def pcmp(s, st, pr, x, y):
        if x is UNDEF or y is UNDEF: return fresh('undef', 1)
        if isinstance(x, Opaque) or isinstance(y, Opaque): raise Unsup('opaque pointer compare')
        if isinstance(x, T): x = s.i2p(x)
        if isinstance(y, T): y = s.i2p(y)
        if isinstance(x, PI): return ite(x.c, s.pcmp(st, pr, x.a, y), s.pcmp(st, pr, x.b, y))
        if isinstance(y, PI): return ite(y.c, s.pcmp(st, pr, x, y.a), s.pcmp(st, pr, x, y.b))
        if x.r is y.r:
            if pr in ('eq', 'ne'): return ICMP[pr](x.o, y.o)
            return ICMP[pr](x.o, y.o) if pr[0] == 's' else ICMP['s' + pr[1:]](x.o, y.o)
        if pr == 'eq': return FALSE
        if pr == 'ne': return TRUE
        rk = x.r.info.get('rank'), y.r.info.get('rank')
        if None not in rk and rk[0] != rk[1]: return ICMP[pr](const(rk[0] + 1, 64), const(rk[1] + 1, 64))   # every address order is a case of its own
        return ICMP[pr](s.p2i(x), s.p2i(y))
    def bitcast(s, v, ft, tt):
        if ft.k != 'v' and tt.k != 'v':
            return v
        if ft.k == 'v' and tt.k == 'v' and tsize(ft.e) == tsize(tt.e) and ft.e.n == tt.e.n: return v
        # flatten to little-endian scalars
        fw = ft.e.n if ft.k == 'v' else (ft.n if ft.k != 'p' else 64)
        src = list(v) if ft.k == 'v' else [v]
        tw = tt.e.n if tt.k == 'v' else tt.n
        if all(x is UNDEF for x in src): return s.undef(tt)
        if tw < fw:
            k = fw // tw; out = []
            for x in src:
                if x is UNDEF: out += [UNDEF] * k
                else:
                    if isptr(x): x = s.p2i(x)
                    out += [ext(x, (j + 1) * tw - 1, j * tw) for j in range(k)]
        else:
            k = tw // fw; out = []
            for j in range(0, len(src), k):
                g = src[j:j + k]
                if all(x is UNDEF for x in g): out.append(UNDEF); continue
                r = None
                for x in g:
                    x = const(0, fw) if x is UNDEF else x
                    r = x if r is None else concat(x, r)
                out.append(r)
        return V(out) if tt.k == 'v' else out[0]
    # ------------------------------------------------ calls
    def do_call(s, fr, st, i):
        cal = i['callee']
        args = [s.val(st, x) if not (isinstance(x, list) and x[0] == 'md') else None for x in i['args']]
        if isinstance(cal, list) and cal[0] == 'fn': name = cal[1]
        elif isinstance(cal, list) and cal[0] == 'asm':
            if not cal[1].strip(): return [(st, None)], []
            raise Unsup('inline asm')
        else:
            f = s.val(st, cal)
            if isinstance(f, PI):
                # dispatch on each alternative
                outs = []; excs = []
                for c, q in pcases(f):
                    if not s.feas(st, c): continue
                    if q.r is NULLR: s.aborts.append(('call through a null pointer', st.pc + (c,), i.get('ln'))); continue
                    x = st.copy().assume(c)
                    o, e = s.dispatch(fr, x, i, q.r.name, args)
                    outs += o; excs += e
                for x, v in outs: x.env['@r'] = v if v is not None else UNDEF
                ms = s.merge_all([x for x, _ in outs], None)
                return [(x, x.env.pop('@r')) for x in ms], excs
            if not isinstance(f, P) or f.r.kind != 'fn': raise Unsup(f'indirect call through {f!r}')
            name = f.r.name
        return s.dispatch(fr, st, i, name, args)
    def dispatch(s, fr, st, i, name, args):
        if 'byval' in i:
            for k, n in i['byval']:
                r = Region(f'byval{s.allocs}', 'obj', size=n, info={'uninit': True, 'local': True}); s.allocs += 1
                s.memcpy(st, P(r), args[k], const(n, 64)); args[k] = P(r)
        c = s.ccache.get(name)
        if c is None:
            fn = s.mod.fns.get(name)
            dem = fn['dem'] if fn else s.mod.decls.get(name, name)
            c = 0
            for rx, h in s.contracts:
                if rx.search(dem): c = (h, dem); break
            s.ccache[name] = c
        if c:
            h, dem = c
            r = h(s, st, args, i, dem)
            if r is not NotImplemented: return s.norm(st, r)
        if name.startswith('api:'):
            return s.norm(st, s.api(s, st, name[4:], args, i))
        if name.startswith('llvm.'):
            import intrin
            return s.norm(st, intrin.call(s, st, name, args, i))
        if name in s.mod.fns:
            return s.call(name, args, st)
        import stdlib
        r = stdlib.call(s, st, name, s.mod.decls.get(name, name), args, i)
        return s.norm(st, r)
    def norm(s, st, r):
        """contract results: a value, or ('multi', [(st,val)], [exc states])"""
        if isinstance(r, tuple) and len(r) == 3 and r[0] == 'multi': return r[1], r[2]
        return [(st, r)], []
    # ------------------------------------------------ loops
    def exec_loop(s, fr, h, inc):
        fn = fr.fn
        sts = [s.phis(fn, h, p, x) for p, x in inc]
        sts = s.merge_all(sts, fn.live_in[h] | fn.phidefs[h])
        out = []
        for st in sts:
            out += s.one_loop(fr, h, st)
        return out
    def one_loop(s, fr, h, st):
        fn = fr.fn
        mode = s.loopmode.get((fn.name, h)) or s.loopmode.get('*', 'auto')
        if (fn.name, h) in s.invariants: return s.invariants[(fn.name, h)](s, fr, h, st)
        if mode == 'unroll': return s.unroll_loop(fr, h, st)
        if mode == 'sum': return s.sum_loop(fr, h, st)
        # try concrete unrolling if the trip count is a known small constant
        r = s.try_unroll_const(fr, h, st)
        if r is not None: return r
        try:
            save = (len(s.obl), len(s.aborts))
            r = s.sum_loop(fr, h, st)
            return r
        except Unsup as e:
            del s.obl[save[0]:]; del s.aborts[save[1]:]
            first = e
        try: return s.unroll_loop(fr, h, st)
        except Unsup as e:
            if 'unroll bound' in str(e):
                first.args = (f'{first} [loop at {fn.dem} block {h}]',)
                raise first
            raise
    def try_unroll_const(s, fr, h, st):
        """loops whose header test folds to a constant on every iteration, at most s.constunroll times"""
        fn = fr.fn
        lim = getattr(s, 'constunroll', 40)
        ins = fn.blocks[h]
        # quick syntactic filter: some phi has a constant start and header/latch compare with constants
        if not any(i['op'] == 'phi' and isinstance(s_ := st.env.get(i['id']), T) and isc(s_) for i in ins): return None
        exits = []; cur = [st]; save = (len(s.obl), len(s.aborts), s.ninst)
        # peek: does the branch after one pass fold?
        for k in range(lim + 1):
            if k == lim: 
                del s.obl[save[0]:]; del s.aborts[save[1]:]; return None
            try: ex, ba = s.run_region(fr, h, [(None, x) for x in cur], h, have_phis=True)
            except Unsup:
                del s.obl[save[0]:]; del s.aborts[save[1]:]
                if k == 0: return None
                raise
            # must be decided: either only exits or only backs, on the loop-control condition
            if ex and ba:
                del s.obl[save[0]:]; del s.aborts[save[1]:]; return None
            exits += ex
            if not ba: s.loops_unrolled += 1; return exits
            nx = [s.phis(fn, h, p, x) for p, x in ba]
            cur = s.merge_all(nx, fn.live_in[h] | fn.phidefs[h])
    def unroll_loop(s, fr, h, st):
        fn = fr.fn
        cur = [st]; exits = []
        s.loops_unrolled += 1
        for k in range(s.unroll + 1):
            ex, ba = s.run_region(fr, h, [(None, x) for x in cur], h, have_phis=True)
            exits += ex
            ba = [(p, x) for p, x in ba if FALSE not in x.pc and solve.feasible(x.pc)]
            if not ba: return exits
            nx = [s.phis(fn, h, p, x) for p, x in ba]
            cur = s.merge_all(nx, fn.live_in[h] | fn.phidefs[h])
        raise Unsup(f'unroll bound {s.unroll} exceeded in {fn.dem}')
    def sum_loop(s, fr, h, st0):
        import loops
        r = loops.summarise(s, fr, h, st0)
        s.loops_summarised += 1
        return r

class Frame:
    def __init__(s, fn): s.fn = fn; s.rets = []; s.excs = []

def divlin(d, k):
    """d = k*q + rem with 0 <= rem < k, decided syntactically; rem None if unknown"""
    if k == 1: return d, 0
    c, items = lin_of(d); c = sgn(c, 64)
    q = {}
    for co, x in items:
        co = sgn(co, 64)
        if co % k == 0: q[x] = co // k; continue
        # product that contains a factor divisible by k?  not tracked
        return None, None
    return mklin(64, c // k, q), c % k

BIN = {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem}
FBIN = {'fadd': 'fadd', 'fsub': 'fsub', 'fmul': 'fmul', 'fdiv': 'fdiv', 'frem': 'frem'}
ICMP = {'eq': eq, 'ne': ne, 'ult': ult, 'ule': ule, 'ugt': lambda a, b: ult(b, a), 'uge': lambda a, b: bnot(ult(a, b)), 'slt': slt, 'sle': sle, 'sgt': sgt, 'sge': sge}
