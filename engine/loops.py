"""Unbounded loop summaries.

For a loop the engine (a) finds every scalar carried around the back edge (SSA phis and
memory cells), (b) solves its recurrence (invariant, affine, last value, shifted, sum,
fold), (c) derives the trip count N from the exit tests, (d) re-executes the body once at
an arbitrary iteration t and checks the induction: the recurrence really reproduces the
closed form at t+1, array reads do not depend on writes of other iterations, and no two
iterations write the same element; (e) resumes after the loop with the closed forms at
t=N and the array writes quantified over 0<=t<N.
"""
from term import *
import solve
from exec import *

def flat(v, path=()):
    if isinstance(v, (V, Agg)):
        for i, x in enumerate(v): yield from flat(x, path + (i,))
    else: yield path, v
def put(v, path, x):
    if not path: return x
    l = list(v); l[path[0]] = put(l[path[0]], path[1:], x); return type(v)(l)

class It: pass

class LFrame:
    def __init__(s):
        s.marks = {}; s.reads = []
        from exec import Region
        s.born = Region.cnt   # regions numbered above were created inside the loop

def freshlike(name, v):
    if isinstance(v, T): return fresh(name, v.w)
    if isinstance(v, P):
        if v.r is NULLR or v.r.kind == 'fn': return None
        return P(v.r, fresh(name, 64))
    return None

def summarise(ex, fr, h, st0):
    fn = fr.fn
    phis = [i for i in fn.blocks[h] if i['op'] == 'phi']
    npc = len(st0.pc)
    # ---------------------------------------------------------------- A: find carried scalars
    modcells = {}
    for rnd in range(8):
        items = []
        sA = st0.copy()
        for i in phis:
            v0 = st0.env[i['id']]; cur = v0
            for path, x in flat(v0):
                f = freshlike(f'ph{i["id"]}', x)
                if x is UNDEF and ty(i['ty']).k in 'if': f = fresh('ph', ty(i['ty']).n); 
                it = It(); it.kind = 'phi'; it.key = (i['id'], path); it.v0 = x; it.f = f
                items.append(it)
                if f is not None: cur = put(cur, path, f)
            sA.env[i['id']] = cur
        for (r, o), (n, v0) in modcells.items():
            f = freshlike(f'cell{o}', v0)
            it = It(); it.kind = 'cell'; it.key = (r, o, n); it.v0 = v0; it.f = f; items.append(it)
            if f is not None: ex.setcell(sA, r, o, n, f)
        memA = dict(sA.mem)
        lf = LFrame(); lf.marks = {r: len(x.log) for r, x in sA.mem.items()}
        sv = (len(ex.obl), len(ex.aborts))
        exits, backs = ex.run_region(fr, h, [(None, sA)], h, have_phis=True)
        del ex.obl[sv[0]:]; del ex.aborts[sv[1]:]
        if not backs: return ex.unroll_loop(fr, h, st0)
        nx = ex.merge_all([ex.phis(fn, h, p, x) for p, x in backs], fn.live_in[h] | fn.phidefs[h])
        if len(nx) != 1: raise Unsup('loop body outcomes do not merge')
        nx = nx[0]
        new = False
        for r, x in nx.mem.items():
            y = memA.get(r)
            if x is y: continue
            if r.kind == 'arr': continue
            if y is None and r not in st0.mem and r.info.get('local'): 
                continue
            y = y or RS()
            if x.fb != y.fb: raise Unsup('block copy into object inside loop')
            for o, (n, v) in x.cells.items():
                q = y.cells.get(o)
                if q is not None and q[0] == n and (q[1] is v or same(q[1], v)): continue
                if (r, o) in modcells: continue
                v0 = ex.cell(st0, r, o, n, ty('ptr') if isptr(v) else None)
                if same(v0, v): continue
                modcells[(r, o)] = (n, v0); new = True
        if not new: break
    else: raise Unsup('loop modifies too many cells')
    # ---------------------------------------------------------------- B: recurrences
    allf = set()
    for it in items:
        if isinstance(it.f, T): allf.add(it.f)
        elif isinstance(it.f, P): allf.add(it.f.o)
    for it in items:
        if it.kind == 'phi':
            v = nx.env[it.key[0]]
            for k in it.key[1]: v = v[k]
        else:
            r, o, n = it.key; v = ex.cell(nx, r, o, n, ty('ptr') if isptr(it.v0) else None)
        it.nx = v; it.closed = None
        it.fv = it.f if isinstance(it.f, T) else it.f.o if isinstance(it.f, P) else None
    invf = {}
    for it in items:
        if it.f is None:
            if same(it.nx, it.v0): it.cls = 'inv'; continue
            if it.v0 is not UNDEF and vfv(it.nx) & allf: raise Unsup(f'loop-carried value of unsupported shape {it.v0!r}')
            it.cls = 'last'; continue
        if same(it.nx, it.f): it.cls = 'inv'; invf[it.fv] = it.v0 if isinstance(it.v0, T) else it.v0.o if isinstance(it.v0, P) else it.fv; continue
        it.cls = None
    dep = allf - set(invf)
    for it in items:
        if it.cls is not None: continue
        if isinstance(it.f, P):
            if isinstance(it.nx, P) and it.nx.r is it.f.r:
                d = sub(it.nx.o, it.f.o)
                if not (fv(d) & dep): it.cls = 'aff'; it.d = d
            continue
        if isinstance(it.nx, T) and it.nx.w == it.f.w and it.f.w > 1 and it.v0 is not UNDEF:
            d = sub(it.nx, it.f)
            if not (fv(d) & dep): it.cls = 'aff'; it.d = d
    def invsub(v): return vsubst(v, invf) if invf else v
    for it in items:
        if it.cls == 'aff': it.d = invsub(it.d)
    known = {it.fv for it in items if it.cls == 'aff'}
    # ---------------------------------------------------------------- trip count from exit tests
    stay = [c for c in nx.pc[npc:]]
    lits = []
    for c in stay:
        c = invsub(c)
        if c is TRUE: continue
        if c.op == 'and' and c.w == 1: lits += list(c.a)
        else: lits.append(c)
    affs = {it.fv: it for it in items if it.cls == 'aff'}
    Ns = []; rest = []
    for l in lits:
        n = trip(ex, st0, l, affs, dep, nx)
        if n is None: rest.append(l)
        else: Ns.append(n)
    if not Ns and not rest: raise Unsup('no exit condition')
    sideexit = bool(rest)
    Nmin = None
    for n in Ns: Nmin = n if Nmin is None else smin(Nmin, n)
    if sideexit and Nmin is not None and ivs(Nmin)[1] <= ex.unroll: return ex.unroll_loop(fr, h, st0)
    if sideexit:
        hi = ivs(Nmin)[1] if Nmin is not None else (1 << 46)
        N = fresh('exit', 64, 0, max(0, hi))
    else: N = Nmin
    hiN = max(0, ivs(N)[1])
    t = fresh('t', 64, 0, hiN)
    # ---------------------------------------------------------------- closed forms at t
    sC = st0.copy()
    if sideexit and Nmin is not None: st0.assume(sle(N, Nmin)); sC.assume(sle(N, Nmin))
    cmap = {}
    def affine(it, tt):
        if isinstance(it.f, P): return P(it.f.r, add(it.v0.o, mul(tt, it.d)))
        w = it.f.w
        if w == 64: return add(it.v0, mul(tt, it.d))
        if w > 64: return add(it.v0, mul(zext(tt, w), it.d))
        return add(it.v0, mul(ext(tt, w - 1, 0), it.d))
    for it in items:
        if it.cls == 'inv': it.at = (lambda tt, it=it: it.v0)
        elif it.cls == 'aff': it.at = (lambda tt, it=it: affine(it, tt))
    # other shapes: iterate until everything that can be classified is
    def at_map(tt, its):
        m = {}
        for it in its:
            if it.fv is None or it.cls is None: continue
            v = it.at(tt)
            m[it.fv] = v.o if isinstance(v, P) else v
        return m
    progress = True
    while progress:
        progress = False
        ok = [it for it in items if it.cls is not None]
        okf = {it.fv for it in ok if it.fv is not None}
        for it in items:
            if it.cls is not None and it.cls != 'last' or hasattr(it, 'at'): continue
            un = (vfv(it.nx) & allf) - okf
            if not un:
                nxv = it.nx
                def at(tt, it=it, ok=ok):
                    if isc(tt) and tt.k == 0: return it.v0
                    pm = at_map(sub(tt, const(1, 64)), ok)
                    v = vsubst(it.nx, pm)
                    return vite(eq(tt, Z64), it.v0, v)
                it.at = at; it.cls = 'prev'; progress = True
            elif un == {it.fv} and isinstance(it.f, T) and isinstance(it.nx, T) and it.v0 is not UNDEF:
                d = sub(it.nx, it.f) if it.f.w > 1 else None
                if d is not None and it.fv not in fv(d):
                    def at(tt, it=it, ok=ok, d=d):
                        return add(it.v0, mksum(lambda i: subst(d, at_map(i, ok)), tt, it.f.w))
                    it.at = at; it.cls = 'sum'; progress = True
                else:
                    def at(tt, it=it, ok=ok):
                        return mkfold(lambda a, i: subst(it.nx, {**at_map(i, ok), it.fv: a}), it.v0, tt)
                    it.at = at; it.cls = 'fold'; progress = True
    for it in items:
        if it.cls is None or not hasattr(it, 'at'): raise Unsup(f'unsolved recurrence {it.kind}{it.key[0]}: {it.f} -> {it.nx}')
    def inst_state(s_, tt):
        for it in items:
            v = it.at(tt)
            if it.kind == 'phi':
                s_.env[it.key[0]] = put(s_.env[it.key[0]], it.key[1], v)
                if it.cls == 'aff' and isinstance(it.f, T) and it.f.w < 64 and nx.nsw.get(it.nx) is not None and isc(it.d):
                    wide = add(sext(it.v0, 64), mul(tt, sext(it.d, 64)))
                    if sext(v, 64) is not wide:
                        s_.nsw = dict(s_.nsw); s_.nsw[v] = wide
            else: ex.setcell(s_, it.key[0], it.key[1], it.key[2], v)
    inst_state(sC, t)
    sC.assume(sle(t, N))
    npcC = len(sC.pc)
    # ---------------------------------------------------------------- C: body at iteration t
    lf = LFrame(); lf.marks = {r: len(x.log) for r, x in sC.mem.items()}
    ex.curloop.append(lf)
    try:
        exits, backs = ex.run_region(fr, h, [(None, sC.copy())], h, have_phis=True)
    finally: ex.curloop.pop()
    back = ex.merge_all([ex.phis(fn, h, p, x) for p, x in backs], fn.live_in[h] | fn.phidefs[h]) if backs else []
    if backs and len(back) != 1: raise Unsup('loop body outcomes do not merge')
    back = back[0] if back else None
    tlt = slt(t, N)
    if back is not None:
        # induction step for the recurrences
        t1 = add(t, const(1, 64))
        for it in items:
            if it.kind == 'phi':
                v = back.env[it.key[0]]
                for k in it.key[1]: v = v[k]
            else: v = ex.cell(back, it.key[0], it.key[1], it.key[2], ty('ptr') if isptr(it.v0) else None)
            if it.cls in ('sum', 'fold'): continue    # by definition of sum/fold; step function re-derived below
            exp = it.at(t1)
            if it.fv is None and it.cls == 'inv': continue
            if it.kind == 'phi' and isinstance(it.key[0], int) and it.key[0] not in fn.live_in[h] | fn.phidefs[h]: continue
            if not same(v, exp):
                g = valeq(v, exp)
                if not ex.must(back, g): raise Unsup(f'recurrence not inductive: {v!r} vs {exp!r}')
        # stay condition for t<N
        if not sideexit:
            for c in back.pc[npcC:]:
                if not solve.implied(c, st0.pc + (tlt, sle(Z64, t))): raise Unsup(f'iteration condition {c} not implied by t<N')
        # side effects
        if len(back.ev) != len(st0.ev):
            evs = back.ev[len(st0.ev):]
        else: evs = ()
        gops = {}
        for k in set(back.gh) | set(st0.gh):
            u, v = st0.gh.get(k), back.gh.get(k)
            if u is v or k == 'schemas' or (isinstance(k, tuple) and len(k) > 1 and k[0] in ('map', 'str') and k[1].n > lf.born): continue
            if isinstance(k, tuple) and k[0] == 'map' and (v or ())[:len(u or ())] == (u or ()): gops[k] = v[len(u or ()):]
            elif u != v: raise Unsup('ghost state changed in a loop')
    else: evs = (); gops = {}
    # ---------------------------------------------------------------- independence of iterations
    writes = {}
    if back is not None:
        for r, x in back.mem.items():
            if r.kind != 'arr': continue
            m = lf.marks.get(r, 0)
            if len(x.log) > m:
                if r not in lf.marks and r.info.get('local') and r not in st0.mem and r.n > lf.born: continue
                writes[r] = x.log[m:]
    t2 = fresh('t2', 64, 0, hiN)
    rng = [sle(Z64, t2), slt(t2, t)]
    for r, off, n, pc, cond in lf.reads:
        if r not in writes: continue
        for w in writes[r]:
            if not indep(ex, st0, r, off, n, w, t, t2, pc + (cond,), N): raise Unsup(f'loop-carried dependence through {r.name} (read {off}, write {w.off})')
    for r, ws in writes.items():
        for a in range(len(ws)):
            for b in range(len(ws)):
                if not ww_indep(ex, st0, r, ws[a], ws[b], t, t2, N, a == b): raise Unsup(f'iterations overwrite each other in {r.name}: {ws[a].off} / {ws[b].off}')
    flatten_rows(ex, st0, writes, t, N)
    # ---------------------------------------------------------------- D: resume after the loop
    out = []
    sub_t = {t: N}
    for p, b, X in exits:
        Y = State()
        memo = {}
        pcs = [subst(c, sub_t, memo) for c in X.pc[npcC:]]
        Y.pc = st0.pc
        bad = False
        for c in pcs:
            Y.assume(c)
        if FALSE in Y.pc: continue
        Y.assume(sle(Z64, N))
        if not solve.feasible(tuple(Y.pc)): continue
        Y.exc = X.exc; Y.gh = X.gh
        for k, ops in gops.items():
            if X.gh.get(k, ()) != st0.gh.get(k, ()): raise Unsup('map changed on the way out of a loop')
            Y.ghost(k, st0.gh.get(k, ()) + (('loop', t, N, ops),))
        live = fn.live_in[b] | fn.phidefs[b]
        # values needed by phis at the exit block
        need = set(live)
        for i in fn.blocks[b]:
            if i['op'] != 'phi': break
            for v, q in i['in']:
                if q == p and isinstance(v, int): need.add(v)
        for k, v in X.env.items():
            if k in need: Y.env[k] = vsubst(v, sub_t, memo)
        Y.nsw = dict(st0.nsw)
        for k, v in X.nsw.items():
            if k not in st0.nsw: Y.nsw[subst(k, sub_t, memo)] = subst(v, sub_t, memo)
        ev = list(st0.ev)
        if evs: ev.append(('loop', t, N, tuple(evs)))
        xe = X.ev[len(st0.ev):]
        ev += [vsubst_ev(e, sub_t, memo) for e in xe]
        Y.ev = tuple(ev)
        for r, x in X.mem.items():
            base = st0.mem.get(r)
            if r.kind == 'arr':
                m = lf.marks.get(r, 0)
                full_ = tuple(W(w.ivs, w.cond, w.off, w.es, w.vals, w.ln) if isinstance(w, WD) else W(((t, N),) + w.ivs, w.cond, w.off, w.es, w.vals, w.ln) for w in writes.get(r, ()))
                part = tuple(w.subst(sub_t, memo) for w in x.log[m:]) if r in lf.marks or r in writes else tuple(w.subst(sub_t, memo) for w in x.log)
                part = tuple(w for w in part if w.cond is not FALSE)
                bl = (base.log if base is not None else ())
                if not full_ and not part and base is not None: Y.mem[r] = base
                else: Y.mem[r] = RS({}, bl + full_ + part, x.fb)
            elif x is base: Y.mem[r] = x
            else:
                c = {o: (n, vsubst(v, sub_t, memo)) for o, (n, v) in x.cells.items()}
                Y.mem[r] = RS(c, x.log, x.fb)
        for r, ws in writes.items():
            if r not in X.mem:
                base = st0.mem.get(r)
                Y.mem[r] = RS({}, (base.log if base else ()) + tuple(W(w.ivs, w.cond, w.off, w.es, w.vals, w.ln) if isinstance(w, WD) else W(((t, N),) + w.ivs, w.cond, w.off, w.es, w.vals, w.ln) for w in ws))
        if sideexit and back is not None:
            sch = (t, N, tuple(c for c in back.pc[npcC:]))
            Y.ghost('schemas', Y.gh.get('schemas', ()) + (sch,))
        out.append((p, b, Y))
    return out

class WD(W):
    __slots__ = ()
def flatten_rows(ex, st, writes, t, N):
    """a loop that walks whole rows as one flat block writes every element of those rows"""
    for r, ws in list(writes.items()):
        if not r.strides: continue
        out = []
        for w in ws:
            n = len(w.vals) * w.es
            try: co = decomp(w.off, r.strides)
            except Unsup: out.append(w); continue
            k0, items = lin_of(co[-1])
            m = {x: sgn(k, 64) for k, x in items}
            if w.ivs or m.get(t) != n or any(t in fv(c) for c in co[:-1]): out.append(w); continue
            rows = ex.flat2d(st, r, sub(w.off, scale(t, n)), scale(N, n))
            if rows is None: out.append(w); continue
            A, u = r.strides[-1]
            if u % n or any(vfv(v) & {t} for v in w.vals) or t in fv(w.cond): out.append(w); continue
            rv = fresh('fr', 64, 0, 1 << 31); cv = fresh('fc', 64, 0, 1 << 31)
            out.append(WD(((rv, rows), (cv, scale(A, u // n))), w.cond, add(sub(w.off, scale(t, n)), add(mul(rv, scale(A, u)), scale(cv, n))), w.es, w.vals, w.ln))
        writes[r] = out

def vsubst_ev(e, m, memo):
    if isinstance(e, tuple) and not isinstance(e, (V, Agg)): return tuple(vsubst_ev(x, m, memo) for x in e)
    return vsubst(e, m, memo)

def valeq(a, b):
    if isinstance(a, T) and isinstance(b, T): return eq(a, b)
    if isinstance(a, P) and isinstance(b, P):
        return eq(a.o, b.o) if a.r is b.r else FALSE
    if isinstance(a, PI): return ite(a.c, valeq(a.a, b), valeq(a.b, b))
    if isinstance(b, PI): return ite(b.c, valeq(a, b.a), valeq(a, b.b))
    if same(a, b): return TRUE
    return FALSE

# -------------------------------------------------------------------- sums and folds
def _level(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        r = max([_level(x) for x in t.a] + [0])
        if t.op in ('sum', 'fold'): r += 1
        memo[t.id] = r
    return r
def mksum(body, n, w):
    i = fresh('si', 64, 0, None)
    b = body(i)
    if i not in fv(b): return mul(ext(n, w - 1, 0) if w < 64 else n if w == 64 else zext(n, w), b)
    l = _level(b) + 1
    bi = var(f'$i{l}', 64, 0, None)
    b = subst(b, {i: bi})
    if isc(n) and n.k == 0: return const(0, w)
    return mk('sum', w, (n, b), l)
def mkfold(step, v0, n):
    i = fresh('si', 64, 0, None); a = fresh('sa', v0.w)
    b = step(a, i)
    l = _level(b) + 1
    b = subst(b, {i: var(f'$i{l}', 64, 0, None), a: var(f'$a{l}', v0.w)})
    if isc(n) and n.k == 0: return v0
    return mk('fold', v0.w, (v0, n, b), l)

# -------------------------------------------------------------------- trip counts
def trip(ex, st, l, affs, dep, nx):
    """first t>=0 at which literal l (true while the loop goes on) fails, as a 64-bit term; None if unknown"""
    neg_ = l.op == 'not'
    a = l.a[0] if neg_ else l
    vs = fv(a) & dep
    if len(vs) != 1: return None
    f = next(iter(vs))
    it = affs.get(f)
    if it is None: return None
    d = it.d
    if not isc(d): return None
    dv = scval(d)
    v0 = it.v0.o if isinstance(it.v0, P) else it.v0
    if v0 is UNDEF: return None
    if a.op not in ('slt', 'ult', 'eq'): return None
    x, y = a.a; aop = a.op
    if aop == 'eq' and any(q.op == 'ext' and q.k[1] > 0 and q.k[0] == q.a[0].w - 1 for q in (x, y)):
        # x < 2^k is represented as "the upper bits are zero"
        q, z_ = (x, y) if x.op == 'ext' else (y, x)
        if isc(z_) and z_.k == 0: x, y, aop = q.a[0], const(1 << q.k[1], q.a[0].w), 'ult'
    # normalise to a comparison where only one side varies
    fx = f in fv(x); fy = f in fv(y)
    if fx and fy:
        return None
    side = x if fx else y; other = y if fx else x
    c, items = lin_of(side)
    inv = {z: k for k, z in items if f not in fv(z)}
    var_ = [(k, z) for k, z in items if f in fv(z)]
    if len(var_) != 1: return None
    k, z = var_[0]; w = side.w; k = sgn(k, w)
    # z is f, or a widening/narrowing of f
    if z is f: wide = lambda v: v
    elif z.op == 'sext' and z.a[0] is f: wide = lambda v: sext(v, w)
    elif z.op == 'zext' and z.a[0] is f: wide = lambda v: zext(v, w)
    elif z.op == 'ext' and z.a[0] is f and z.k[1] == 0:
        wide = lambda v: ext(v, z.k[0], 0)
    else: return None
    step = dv * k
    start = add(mklin(w, c, inv), scale(wide(v0), k))     # side at t=0
    if step == 0: return None
    if aop == 'eq':
        if not neg_: return ite(eq(other, start), const(1, 64), Z64) if step % (1 << w) else None          # stay while equal: at most once
        diff = sub(other, start)          # need step*t == diff (mod 2^w)
        if step in (1, -1):
            r = diff if step == 1 else neg(diff)
            r = zext(r, 64) if w < 64 else r
            if w == 64 and ivs(r)[0] < 0:
                if not ex.nonneg(st, r): return None
                b = ivs(r)[1]
            return r
        dd = sext(diff, 64) if w < 64 else diff
        s_ = step
        if s_ < 0: dd = neg(dd); s_ = -s_
        q, rem = divlin(dd, s_)
        if rem == 0 and ex.nonneg(st, q): return q
        # divisibility as a fact?
        if s_ & (s_ - 1) == 0 and ex.must(st, band(eq(and_(dd, const(s_ - 1, 64)), Z64), sle(Z64, dd))): return udiv(dd, const(s_, 64))
        return None
    signed = aop == 'slt'
    W_ = 64
    e = (lambda v: sext(v, 64)) if signed else (lambda v: zext(v, 64))
    if w > 64: return None
    if w == 64 and not signed:
        # unsigned 64-bit compare: treat as signed when both sides are small non-negative
        if not (ex.nonneg(st, start) and ex.nonneg(st, other)): return None
        e = lambda v: v
    S = e(start); O = e(other)
    # stay condition in terms of value v(t)=S+step*t
    if fx and not neg_:      # v < O
        kind, bound = 'lt', O
    elif fx and neg_:        # v >= O
        kind, bound = 'ge', O
    elif fy and not neg_:    # O < v   -> v >= O+1
        kind, bound = 'ge', add(O, const(1, 64))
    else:                    # not (O < v) -> v <= O -> v < O+1
        kind, bound = 'lt', add(O, const(1, 64))
    if kind == 'lt':
        if step < 0: return None
        diff = sub(bound, S)
        n = cdiv(diff, step)
        last = add(S, scale(n, step))
        F = full(w) if signed else (0, mask(w))
        r = ite(slt(Z64, diff), n, Z64)
        if w < 64 and not it_nowrap(ex, st, it, last, F, diff, nx): return None
        return r if ivs(diff)[0] < 0 or True else n
    else:
        if step > 0: return None
        diff = add(sub(S, bound), const(1, 64))      # v>=bound <=> diff' > 0
        n = cdiv(diff, -step)
        last = add(S, scale(n, step))
        F = full(w) if signed else (0, mask(w))
        r = ite(slt(Z64, diff), n, Z64)
        if w < 64 and not it_nowrap(ex, st, it, last, F, diff, nx): return None
        return r
def cdiv(d, k):
    if k == 1: return d
    q, rem = divlin(d, k)
    if rem is not None: return q if rem == 0 else add(q, const(1, 64))
    x = add(d, const(k - 1, 64))
    return udiv(x, const(k, 64))
def it_nowrap(ex, st, it, last, F, diff, nx):
    lo, hi = ivs(last)
    if lo >= F[0] and hi <= F[1]: return True
    if nx.nsw.get(it.nx) is not None: 
        return True
    g = bor(sle(diff, Z64), band(sle(const(F[0], 64), last), sle(last, const(F[1], 64))))
    if ex.must(st, g): return True
    return False

# -------------------------------------------------------------------- independence
def overlap(r, offA, nA, offB, nB):
    a = decomp(offA, r.strides); b = decomp(offB, r.strides)
    cs = [eq(x, y) for x, y in zip(a[:-1], b[:-1])]
    nA = nA if isinstance(nA, T) else const(nA, 64); nB = nB if isinstance(nB, T) else const(nB, 64)
    cs += [slt(a[-1], add(b[-1], nB)), slt(b[-1], add(a[-1], nA))]
    return band(*cs)
def quick(r, offA, nA, offB, nB, t, t2):
    """syntactic: both affine in the iteration with the same coefficient -> no overlap for t != t2"""
    a = decomp(offA, r.strides); b = decomp(offB, r.strides)
    if isinstance(nA, T) or isinstance(nB, T): return False
    for ci, (x, y) in enumerate(zip(a, b)):
        d = sub(x, y)
        c, items = lin_of(d); c = sgn(c, 64)
        m = {z: sgn(k, 64) for k, z in items}
        if set(m) == {t, t2} and m[t] == -m[t2]:
            k = abs(m[t])
            last = ci == len(a) - 1
            lo = -(nB - 1) if last else 0; hi = nA - 1 if last else 0
            # overlap iff  -nA < d < nB  where d = k*(t-t2)+c (column), or d == 0 (row)
            if last:
                # is there j != 0 with -nA < k*j + c < nB ?
                bad = any(-nA < k * j + c < nB for j in range(-((abs(c) + nA + nB) // k + 2), (abs(c) + nA + nB) // k + 3) if j != 0)
                if not bad: return True
            else:
                if c % k != 0 or c == 0: return True if c == 0 or c % k else False
    return False
def indep(ex, st, r, off, n, w, t, t2, pc, N):
    ren = {t: t2}
    wo = subst(w.off, ren); wc = subst(w.cond, ren)
    inner = {v: fresh('iv', 64, *ivs(v)) for v, _ in w.ivs}
    wo = subst(wo, inner); wc = subst(wc, inner)
    nb = len(w.vals) * w.es
    if quick(r, off, n, wo, nb, t, t2): return True
    g = overlap(r, off, n, wo, nb)
    if g is FALSE: return True
    facts = list(pc) + [sle(Z64, t2), slt(t2, t), wc]
    for v, m in w.ivs:
        facts += [sle(Z64, inner[v]), slt(inner[v], subst(subst(m, ren), inner))]
    return not solve.feasible(tuple(solve.relevant(facts, g)) + (g,), 5)
def ww_indep(ex, st, r, w1, w2, t, t2, N, samew):
    """write w1 at iteration t2 < t must not hit the location of w2 at iteration t, or be ordered as in the log"""
    n1 = len(w1.vals) * w1.es; n2 = len(w2.vals) * w2.es
    tin = t in fv(w2.off)
    if not (t in fv(w1.off)) and not tin:
        return True      # same location every iteration: the read rule takes the last one
    o1 = subst(w1.off, {t: t2})
    inner = {v: fresh('iv', 64, *ivs(v)) for v, _ in w1.ivs}
    o1 = subst(o1, inner)
    if quick(r, w2.off, n2, o1, n1, t, t2): return True
    g = overlap(r, w2.off, n2, o1, n1)
    if g is FALSE: return True
    facts = list(st.pc) + [sle(Z64, t2), slt(t2, t), slt(t, N), w2.cond, subst(subst(w1.cond, {t: t2}), inner)]
    for v, m in w1.ivs: facts += [sle(Z64, inner[v]), slt(inner[v], subst(subst(m, {t: t2}), inner))]
    for v, m in w2.ivs: facts += [sle(Z64, v), slt(v, m)]
    return not solve.feasible(tuple(solve.relevant(facts, g)) + (g,), 5)
