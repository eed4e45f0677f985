"""IR as exported from the real sources: modules, functions, types."""
import json, re, os, subprocess, hashlib, sys

class Ty:
    __slots__ = ('k', 'n', 'e', 'fs', 's')
_ty = {}
def ty(s):
    r = _ty.get(s)
    if r is None:
        r, rest = _pt(s); assert rest == '', (s, rest)
        _ty[s] = r
    return r
def _mk(k, n=0, e=None, fs=None, s=''):
    t = Ty(); t.k = k; t.n = n; t.e = e; t.fs = fs; t.s = s; return t
def _pt(s):
    if s.startswith('ptr'): return _mk('p', 64, s='ptr'), s[3:]
    m = re.match(r'i(\d+)', s)
    if m: return _mk('i', int(m.group(1)), s=m.group(0)), s[m.end():]
    for nm, w in (('float', 32), ('double', 64), ('half', 16), ('x86_fp80', 80)):
        if s.startswith(nm): return _mk('f', w, s=nm), s[len(nm):]
    m = re.match(r'<(\d+) x ', s)
    if m:
        e, r = _pt(s[m.end():]); assert r[0] == '>'; return _mk('v', int(m.group(1)), e), r[1:]
    m = re.match(r'\[(\d+) x ', s)
    if m:
        e, r = _pt(s[m.end():]); assert r[0] == ']'; return _mk('a', int(m.group(1)), e), r[1:]
    if s[0] == '{':
        fs = []; r = s[1:]
        while r[0] != '}':
            if r[0] == ',': r = r[1:]
            m = re.match(r'(\d+):', r); o = int(m.group(1)); e, r = _pt(r[m.end():]); fs.append((o, e))
        return _mk('s', 0, None, fs), r[1:]
    m = re.match(r'(void|metadata|token|label|target\S*)', s)
    if m: return _mk('x', 0, s=m.group(0)), s[m.end():]
    raise ValueError(s)
def tsize(t):
    if t.k in 'if': return (t.n + 7) // 8 if t.k == 'i' or t.n != 80 else 16
    if t.k == 'p': return 8
    if t.k in 'va': return t.n * tsize(t.e)
    if t.k == 's': return (t.fs[-1][0] + tsize(t.fs[-1][1])) if t.fs else 0
    return 0
def leaves(t, off=0):
    """(offset, scalar type) of every scalar of t"""
    if t.k in 'ifp': yield off, t
    elif t.k in 'va':
        n = tsize(t.e)
        for i in range(t.n): yield from leaves(t.e, off + i * n)
    elif t.k == 's':
        for o, e in t.fs: yield from leaves(e, off + o)

class Fn:
    def __init__(s, d, mod):
        s.mod = mod; s.name = d['name']; s.dem = d['dem']; s.args = d['args']; s.ret = d['ret']; s.blocks = d['blocks']; s.file = d.get('file'); s.line = d.get('line')
        s.succ = []; 
        for b in s.blocks:
            t = b[-1]
            if t['op'] == 'br': x = t['succ']
            elif t['op'] == 'switch': x = [t['def']] + [c[1] for c in t['cases']]
            elif t['op'] == 'invoke': x = [t['normal'], t['unwind']]
            else: x = []
            s.succ.append(list(dict.fromkeys(x)))
        n = len(s.blocks)
        s.pred = [[] for _ in range(n)]
        for i in range(n):
            for j in s.succ[i]: s.pred[j].append(i)
        s.loops = {}
        for l in d['loops']: s.loops[l['header']] = set(l['blocks'])
        s.latch = {l['header']: set(l['latches']) for l in d['loops']}
        s.loopof = {}
        s.depth = {l['header']: l['depth'] for l in d['loops']}
        # topological order ignoring back edges
        back = {(x, h) for h in s.latch for x in s.latch[h]}
        seen = set(); post = []
        st = [(0, iter(s.succ[0] if n else []))]; seen.add(0)
        while st:
            b, it = st[-1]
            for y in it:
                if (b, y) in back or y in seen: continue
                seen.add(y); st.append((y, iter(s.succ[y]))); break
            else:
                post.append(b); st.pop()
        s.order = {b: i for i, b in enumerate(reversed(post))}
        s._live()
    def _ops(s, i):
        for k in ('ops',):
            for x in i.get(k, ()): yield x
        for k in ('base', 'cond', 'callee', 'cnt'):
            if k in i: yield i[k]
        for v in i.get('var', ()): yield v[0]
        for a in i.get('args', ()): yield a
    def _live(s):
        n = len(s.blocks); use = [set() for _ in range(n)]; df = [set() for _ in range(n)]; phi_use = {}
        for b, ins in enumerate(s.blocks):
            for i in ins:
                if i['op'] == 'phi':
                    for v, p in i['in']:
                        if isinstance(v, int): phi_use.setdefault(p, set()).add(v)
                else:
                    for v in s._ops(i):
                        if isinstance(v, int) and v not in df[b]: use[b].add(v)
                if 'id' in i: df[b].add(i['id'])
        live_in = [set() for _ in range(n)]; ch = True
        out = [set() for _ in range(n)]
        while ch:
            ch = False
            for b in sorted(range(n), key=lambda x: -s.order.get(x, 0)):
                o = set(phi_use.get(b, ()))
                for t in s.succ[b]: o |= live_in[t]
                i = use[b] | (o - df[b])
                if i != live_in[b] or o != out[b]: live_in[b] = i; out[b] = o; ch = True
        s.live_in = live_in
        s.phidefs = [set(i['id'] for i in b if i['op'] == 'phi') for b in s.blocks]

class Module:
    def __init__(s, path):
        d = json.load(open(path))
        s.fns = {}
        for f in d['functions']: s.fns[f['name']] = f
        s._f = {}
        s.globals = {g['name']: g for g in d['globals']}
        s.decls = {a: b for a, b in d['decls']}
        s.structs = {a: (b, c) for a, b, c in d.get('structs', ())}
        s.bydem = {f['dem']: f['name'] for f in d['functions']}
    def fn(s, name):
        r = s._f.get(name)
        if r is None and name in s.fns: r = s._f[name] = Fn(s.fns[name], s)
        return r
    def find(s, rx):
        r = [n for d, n in s.bydem.items() if re.search(rx, d)]
        return r
