#!/usr/bin/env python3-vt
"""hunt.py PID TIER SEED OUT SECONDS : search for an input on which the real build breaks the property."""
import sys, os, time, json, importlib, signal, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rt'), os.path.join(HERE, 'props'), HERE]

class Stop(Exception): pass
class H:
    def __init__(s, tier, seed, out, secs, part=0, parts=1):
        import numpy as np
        s.tier = tier; s.seed = seed; s.out = out; s.t0 = time.time(); s.secs = secs; s.rng = np.random.default_rng([seed, part])
        s.cases = 0; s.hits = []; s.part = part; s.parts = parts; s.by = {}; s.samples = []; s.cur = None
    def left(s): return s.secs - (time.time() - s.t0)
    def go(s):
        """time for another round?"""
        return s.left() > 0
    def case(s, kind, **k):
        s.cases += 1; s.by[kind] = s.by.get(kind, 0) + 1
        s.cur = dict(kind=kind, **k)
        if len(s.samples) < 3: s.samples.append(s.cur)
        with open(s.out + '.cur', 'w') as f: json.dump(s.cur, f, default=str)
        return s.cur
    def fail(s, what, **k):
        s.hits.append(dict(s.cur or {}, what=what, **k))
        s.flush()
        if len(s.hits) >= 5: raise Stop
    def check(s, cond, what, **k):
        if not cond: s.fail(what, **k)
        return cond
    def flush(s):
        with open(s.out + '.tmp', 'w') as f: json.dump({'hits': s.hits, 'cases': s.cases, 'by': s.by, 'samples': s.samples}, f, default=str)
        os.replace(s.out + '.tmp', s.out)

def child(pid, tier, seed, out, secs, part, parts):
    try:
        import resource; resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        h = H(tier, seed, out, secs, part, parts)
        p = importlib.import_module(pid.lower())
        try: p.hunt(h)
        except Stop: pass
        except Exception as e:
            if not h.cases: raise
            # the observations could not even be interpreted: reported with the current case
            h.hits.append(dict(h.cur or {}, what=f'result could not be interpreted: {type(e).__name__}: {e}', trace=traceback.format_exc()[-1500:]))
        h.flush(); os._exit(0)
    except Exception as e:
        with open(out + '.err', 'w') as f: f.write(traceback.format_exc()[-3000:])
        os._exit(3)

def main():
    pid, tier, seed, out, secs = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], float(sys.argv[5])
    import buildrt
    res = {'hits': [], 'cases': 0, 'by': {}, 'samples': []}
    t0 = time.time()
    try: buildrt.build('-O2')
    except Exception as e:
        res['infra'] = 'build of the real library failed: ' + str(e)[-1500:]
        json.dump(res, open(out, 'w')); return
    res['build_s'] = round(time.time() - t0, 1)
    p = importlib.import_module(pid.lower())
    parts = getattr(p, 'HUNT_PARTS', 2)
    ps = []
    for k in range(parts):
        o = f'{out}.{k}'
        q = mp.Process(target=child, args=(pid, tier, seed, o, secs, k, parts)); q.start(); ps.append((q, o))
    for q, o in ps:
        q.join(max(1, secs + 60 - (time.time() - t0 - res['build_s'])))
        hung = q.is_alive()
        if hung: q.kill(); q.join()
        if os.path.exists(o):
            r = json.load(open(o)); os.unlink(o)
            res['hits'] += r['hits']; res['cases'] += r['cases']; res['samples'] = (res['samples'] + r['samples'])[:3]
            for a, b in r['by'].items(): res['by'][a] = res['by'].get(a, 0) + b
        cur = json.load(open(o + '.cur')) if os.path.exists(o + '.cur') else {}
        if os.path.exists(o + '.cur'): os.unlink(o + '.cur')
        if hung: res['hits'].append(dict(cur, what='the library did not return (deadlock or endless loop)'))
        elif q.exitcode == 3:
            res['infra'] = open(o + '.err').read()
        elif q.exitcode != 0: res['hits'].append(dict(cur, what=f'the process died with signal {-q.exitcode}'))
        for x in ('.err', '.tmp'):
            if os.path.exists(o + x): os.unlink(o + x)
    res['wall_s'] = round(time.time() - t0, 1)
    json.dump(res, open(out, 'w'), default=str)
if __name__ == '__main__': main()
