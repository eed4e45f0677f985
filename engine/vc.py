"""Property tasks: collecting and discharging obligations, in parallel worker processes."""
import os, re, sys, time, json, signal, traceback, multiprocessing as mp
from term import *
from exec import *
import solve

class Deadline(Exception): pass

class Rec:
    """obligations of one task (one function or filter under contract, one configuration)"""
    def __init__(s, name, timeout=20):
        s.name = name; s.obls = []; s.functions = set(); s.assumptions = set(); s.unsup_ = []; s.timeout = timeout; s.bounded = set(); s.loops = [0, 0]; s.hints = []
    def prove(s, what, goal, hyps=(), kind='post', timeout=None, first=None):
        t0 = time.time()
        r = solve.prove(goal, [h for h in hyps], timeout or s.timeout, first='int' if kind == 'lemma' else first or getattr(s, 'first', None))
        m = None; why = None
        if r.status == 'refuted' and noncanonical(goal): r.status = 'unknown'; why = 'address arithmetic was not resolved into rows and columns'
        if r.status == 'refuted' and atoms(goal, isflt): r.status = 'unknown'; why = 'floating-point operators are uninterpreted: a counterexample may be an artefact'
        if r.status == 'refuted' and unfinished(goal, hyps): r.status = 'unknown'; why = 'a sum or fold over loop iterations is uninterpreted: a counterexample may be an artefact'
        if r.status == 'refuted' and r.model:
            m = {show_name(t): sgn(v, t.w) if t.w > 1 else v for t, v in r.model.items()}
            m = dict(list(sorted(m.items()))[:60])
        s.obls.append({'what': what, 'kind': kind, 'status': r.status, 'by': r.backend, 't': round(time.time() - t0, 3), 'model': m, **({'why': why} if why else {})})
        return r.status == 'proved'
    def fail(s, what, why='', kind='post'):
        s.obls.append({'what': what, 'kind': kind, 'status': 'refuted', 'by': 'structural', 't': 0, 'model': None, 'why': why})
    def ok(s, what, kind='post', by='structural'):
        s.obls.append({'what': what, 'kind': kind, 'status': 'proved', 'by': by, 't': 0, 'model': None})
    def check(s, what, cond, why=''):
        if cond: s.ok(what)
        else: s.fail(what, why)
        return cond
    def reach(s, what, pc):
        """vacuity: the states a postcondition speaks about exist"""
        ok = solve.feasible(tuple(pc), 10)
        s.obls.append({'what': 'reachable: ' + what, 'kind': 'vacuity', 'status': 'proved' if ok else 'vacuous', 'by': 'z3', 't': 0, 'model': None})
        return ok
    def side(s, ex, skip=None):
        """obligations generated while executing: bounds, null and assertion failures, API preconditions"""
        seen = set()
        for what, pc, c in ex.obl:
            if skip and skip(what): continue
            k = (what, c, pc)
            if k in seen: continue
            seen.add(k)
            alt = ex.altobl.get(c)
            if alt is None: s.prove(what, c, tuple(pc) + tuple(ex.facts), kind='safety')
            elif not s.prove(what, c, tuple(pc) + tuple(ex.facts), kind='safety'):
                o = s.obls.pop()
                if not s.prove(what, bor(c, alt), tuple(pc) + tuple(ex.facts), kind='safety'): s.obls[-1]['rowwise'] = o['status']
        for what, pc, ln in ex.aborts:
            if FALSE in pc: continue
            s.prove(f'never reached: {what} (line {ln})', FALSE, tuple(pc) + tuple(ex.facts), kind='safety')
        s.functions |= ex.inlined; s.assumptions |= ex.assumptions
        s.loops[0] += ex.loops_summarised; s.loops[1] += ex.loops_unrolled
        ex.obl = []; ex.aborts = []
    def unsup(s, what, e):
        loc = getattr(e, 'loc', None)
        s.unsup_.append({'what': what, 'why': str(e)[:400], 'at': f'{loc[0]}:{loc[1]}' if loc else None})
    def result(s):
        return {'task': s.name, 'obls': s.obls, 'functions': sorted(s.functions), 'assumptions': sorted(s.assumptions), 'unsup': s.unsup_, 'bounded': sorted(s.bounded), 'loops': s.loops, 'hints': s.hints}
def isflt(t): return t.op in ('cvt', 'fcmp') or (t.op[0] == 'f' and t.op != 'fold')
def isfold(t): return t.op in ('sum', 'fold')
def isloopvar(t): return t.op == 'v' and str(t.k[0]).startswith(('exit#', 't#'))
def unfinished(goal, hyps):
    """the goal speaks about a loop result known only as a sum or fold, or about an iteration or exit whose range is one"""
    if atoms(goal, isfold): return True
    loopy = {t.id for t in atoms(goal, isloopvar)}
    if not loopy: return False
    H = [(bool(atoms(h, isfold)), {t.id for t in atoms(h, isloopvar)}) for h in hyps if h.op != 'c']
    while True:
        hit = [x for x in H if x[1] & loopy]
        if any(f for f, v in hit): return True
        new = set().union(*(v for f, v in hit)) if hit else set()
        if new <= loopy: return False
        loopy |= new
def noncanonical(g):
    """the goal reads an address whose row pitch was not separated: a refutation may be an artefact"""
    seen = set(); st = [(g, False)]
    while st:
        t, u = st.pop()
        if (t.id, u) in seen: continue
        seen.add((t.id, u))
        if t.op == 'v' and u and _STR.match(str(t.k[0])): return True
        u = u or (t.op in ('uf', 'ext') and t.w > 0)
        st.extend((x, u) for x in t.a)
    return False
_STR = re.compile(r'^S\d+$')
def show_name(t):
    if t.op == 'v': return t.k[0]
    n = t.k[0] if isinstance(t.k, tuple) else str(t.k)
    return f'{n}({",".join(str(a)[:60] for a in t.a)})'

def _worker(q, mod, fn, name, kw, limit):
    sys.setrecursionlimit(200000)
    import threading
    threading.stack_size(512 << 20)
    out = {}
    def body():
        m = __import__(mod, fromlist=['x'])
        rec = Rec(name)
        t0 = time.time()
        try:
            getattr(m, fn)(rec, **kw)
        except Unsup as e:
            rec.unsup(name, e)
            if os.environ.get('VERIF_TRACE'): print(name, *traceback.format_exc().splitlines()[-int(os.environ['VERIF_TRACE']):], sep='\n   ', file=sys.stderr)
        except RecursionError as e: rec.unsup(name, Unsup('recursion depth'))
        except Exception as e:
            if os.environ.get('VERIF_TRACE'): print(name, *traceback.format_exc().splitlines()[-int(os.environ['VERIF_TRACE']):], sep='\n   ', file=sys.stderr)
            import build
            r = rec.result(); r['crash'] = ''.join(traceback.format_exception(e))[-3000:]; r['builderr'] = isinstance(e, build.BuildError)
            r['wall'] = time.time() - t0; out['r'] = r; return
        r = rec.result(); r['wall'] = time.time() - t0; out['r'] = r
    th = threading.Thread(target=body, daemon=True); th.start(); th.join(limit)
    if 'r' not in out: out['r'] = {'task': name, 'obls': [], 'functions': [], 'assumptions': [], 'unsup': [{'what': name, 'why': f'time limit {limit}s', 'at': None}], 'bounded': [], 'loops': [0, 0], 'hints': [], 'wall': limit}
    q.put(out['r']); q.close(); q.join_thread(); os._exit(0)

def run_tasks(tasks, jobs=8, limit=300, total=700):
    """tasks: [(module, function, name, kwargs)] -> results"""
    q = mp.Queue(); live = {}; res = []; todo = list(tasks)[::-1]; t0 = time.time()
    while todo or live:
        while todo and len(live) < jobs and time.time() - t0 < total:
            t = todo.pop()
            lim = max(5, min(limit, total - (time.time() - t0)))
            p = mp.Process(target=_worker, args=(q, *t[:2], t[2], t[3], lim)); p.start(); live[t[2]] = (p, time.time(), lim)
        if time.time() - t0 >= total and todo:
            for t in todo: res.append({'task': t[2], 'obls': [], 'functions': [], 'assumptions': [], 'unsup': [{'what': t[2], 'why': 'overall time limit', 'at': None}], 'bounded': [], 'loops': [0, 0], 'hints': [], 'wall': 0})
            todo = []
        try:
            r = q.get(timeout=0.2); res.append(r)
            p = live.pop(r['task'])[0]; p.join()
        except Exception: pass
        for n, (p, ts, lim) in list(live.items()):
            if not p.is_alive():
                # a result may still be queued
                try:
                    while True:
                        r = q.get(timeout=0.3); res.append(r); live.pop(r['task'])[0].join()
                except Exception: pass
                if n in live:
                    live.pop(n); res.append({'task': n, 'obls': [], 'functions': [], 'assumptions': [], 'unsup': [{'what': n, 'why': f'worker died ({p.exitcode})', 'at': None}], 'bounded': [], 'loops': [0, 0], 'hints': [], 'wall': time.time() - ts})
            elif time.time() - ts > lim + 20:
                p.kill(); p.join(); live.pop(n); res.append({'task': n, 'obls': [], 'functions': [], 'assumptions': [], 'unsup': [{'what': n, 'why': 'killed at time limit', 'at': None}], 'bounded': [], 'loops': [0, 0], 'hints': [], 'wall': lim})
    return res
