"""Running plain functions of the real sources (not filters) under the same machinery."""
import re
from term import *
from exec import *
from api import *
import stdlib, build
from filt import STOPS, FCONTRACTS

class Fns:
    """functions of some translation units, or of a unit of wrappers (text) around real headers"""
    def __init__(s, roots, src=None, text=None, stops=(), contracts=(), march='x86-64', extra=(), unroll=12, nostops=False):
        s.mod = build.module(src, roots, (() if nostops else tuple(STOPS)) + tuple(stops), text=text, march=march, extra=tuple(extra))
        s.contracts = list(contracts) + FCONTRACTS + stdlib.CONTRACTS; s.unroll = unroll
    def name(s, rx):
        n = s.mod.find(rx)
        if len(n) != 1: raise Unsup(f'{len(n)} functions match {rx}')
        return n[0]
    def run(s, rx, args, facts=(), mode=None, invs=()):
        s.ex = Exec(s.mod, s.contracts, unroll=s.unroll); st = State()
        if mode: s.ex.loopmode['*'] = mode
        s.ex.opaque_ctpop = getattr(s, 'opaque_ctpop', False)
        for k, f in invs: s.ex.invariants[k] = f
        for c in facts: st.assume(c)
        outs, excs = s.ex.call(s.name(rx), list(args), st)
        return s.ex, [(x, v) for x, v in outs if FALSE not in x.pc], [x for x in excs if FALSE not in x.pc]
def struct(name, fields, vals=None, ro=False):
    """object with named fields [(name, offset, width)]; vals: name -> term (default: a variable of that name)"""
    r = Region(name, 'obj', size=max(o + w // 8 for _, o, w in fields)); m = {}
    for f, o, w in fields: m[o] = vals[f] if vals and f in vals else var(f'{name}.{f}', w)
    def init(ex, st, r, o, n, t):
        v = None
        k = o.k if isinstance(o, T) else o; parts = []; end = k + n
        while k < end:
            x = m.get(k)
            if x is None: x = fresh(f'{name}.pad', 8)
            parts.append(x); k += x.w // 8
        if k != end: raise Unsup('partial field')
        v = parts[0]
        for x in parts[1:]: v = concat(x, v)
        return v
    r.init = init; r.m = {f: m[o] for f, o, w in fields}
    return r
def rd(ex, st, r, off, w): return ex.load(st, P(r, const(off, 64)), ty(f'i{w}'))
