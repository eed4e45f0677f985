#!/usr/bin/env python3-vt
"""check.py PROPERTY quick|thorough : decide one property on /repo's current source."""
import sys, os, time, json, importlib, subprocess, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rt'), os.path.join(HERE, 'props'), HERE]
sys.setrecursionlimit(200000)

TRUSTED = ['clang 18 front end at -O1 with LLVM passes disabled, then the exporter\'s inlining/SROA pipeline: source to IR', 'engine/*.py: the verification-condition generator (symbolic execution with loop summaries checked inductively)', 'z3 5.3.2 (python), z3 4.8.12, cvc5 1.1.2']

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if tier == 'replay': return replay(pid, sys.argv[3])
    t0 = time.time()
    import vc, build
    p = importlib.import_module(pid.lower())
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': p.LEVEL, 'violations': 0}
    known = [l for l in json.load(open(os.path.join(HERE, 'known-findings.json'))).get('findings', []) if l['property'] == pid] if os.path.exists(os.path.join(HERE, 'known-findings.json')) else []
    # ---- the hunt on the real build runs beside the proof
    hunter = None; hout = os.path.join(HERE, 'build', f'hunt-{pid}-{os.getpid()}.json')
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True); os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    hlim = getattr(p, 'HUNT_S', {'quick': 60, 'thorough': 600})[tier]
    if hasattr(p, 'hunt'):
        env = dict(os.environ, VERIF_SEED=str(seed))
        hunter = subprocess.Popen([sys.executable, os.path.join(HERE, 'hunt.py'), pid, tier, str(seed), hout, str(hlim)], env=env, start_new_session=True)
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    tasks = p.tasks(tier) if hasattr(p, 'tasks') else []
    res = vc.run_tasks(tasks, jobs=jobs, limit=getattr(p, 'TASK_S', {'quick': 400, 'thorough': 3000})[tier], total={'quick': 640, 'thorough': 6000}[tier])
    fails = []; unk = []; vac = []; unsup = []; obl = dis = 0; by = {}; st = 0.0; infra = []
    fns = set(); assum = set(); loops = [0, 0]; bounded = set(); kinds = {}
    for r in res:
        if r.get('crash'):
            if r.get('builderr') or os.environ.get('VERIF_STRICT'): infra.append(r)
            else: unsup.append((r['task'], {'why': 'the verifier gave up: ' + r['crash'].strip().splitlines()[-1][:300], 'at': None}))
        for o in r['obls']:
            if o['kind'] == 'vacuity':
                if o['status'] == 'vacuous': vac.append((r['task'], o))
                continue
            obl += 1; st += o['t']; kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
            if o['status'] == 'proved': dis += 1; by[o['by']] = by.get(o['by'], 0) + 1
            elif o['status'] == 'refuted': fails.append((r['task'], o))
            else: unk.append((r['task'], o))
        for u in r['unsup']: unsup.append((r['task'], u))
        fns |= set(r['functions']); assum |= set(r['assumptions']); bounded |= set(r['bounded'])
        loops[0] += r['loops'][0]; loops[1] += r['loops'][1]
    h = None
    if hunter:
        try: hunter.wait(max(5, hlim + 240 - 0))
        except subprocess.TimeoutExpired: pass
        try: os.killpg(hunter.pid, signal.SIGKILL)
        except Exception: pass
        if os.path.exists(hout): h = json.load(open(hout)); os.unlink(hout)
        for x in (hout + '.cur',):
            if os.path.exists(x): os.unlink(x)
    rdir = os.path.join(HERE, 'build', 'replay'); os.makedirs(rdir, exist_ok=True)
    bounded |= {f'{t}: {u["why"]}' + (f' at {u["at"]}' if u['at'] else '') for t, u in unsup}
    rc = 0; viol = []
    optional = getattr(p, 'advisory', lambda task, o: False)
    def write(name, obj):
        f = os.path.join(rdir, f'{pid}-{name}.json'); json.dump(obj, open(f, 'w'), indent=1, default=str); return f
    obls = [{'task': t, **o} for t, o in fails if not optional(t, o)]
    soft = [{'task': t, **o} for t, o in fails if optional(t, o)] + [{'task': t, **o} for t, o in unk]
    if h and h.get('infra'): infra.append({'task': 'hunt', 'crash': h['infra']})
    hits = (h or {}).get('hits', [])
    kf = []
    for x in list(hits):
        for k in known:
            if k.get('match') and all(str(x.get(a)) == str(b) for a, b in k['match'].items()):
                kf.append(k); hits.remove(x); break
    for k in known:
        if not any(x is k for x in kf) and k.get('always'): kf.append(k)
    for k in {json.dumps(x, sort_keys=True) for x in kf}:
        print(f'KNOWN-FINDING: property={pid} {json.loads(k)["what"]}')
    if hits:
        f = write('input', {'property': pid, 'failing': hits, 'obligations': obls[:20], 'how': f'python3-vt {HERE}/check.py {pid} replay <this file>'})
        print('failing input:', json.dumps(hits[0], default=str)[:1500])
        viol.append(f'VIOLATION property={pid} replay={f}')
    elif obls:
        kfo = [k for k in known if k.get('obligation')]
        left = [o for o in obls if not any(k['obligation'] in o['task'] + ': ' + o['what'] for k in kfo)]
        for k in kfo:
            if any(k['obligation'] in o['task'] + ': ' + o['what'] for o in obls): print(f'KNOWN-FINDING: property={pid} {k["what"]}')
        if left:
            f = write('obligation', {'property': pid, 'failed_obligations': left[:40], 'note': 'obligation refuted by the verifier; no failing input found by the replay on the real build'})
            for o in left[:10]: print('failed obligation:', o['task'], '|', o['what'], '|', json.dumps(o.get('model'), default=str)[:600])
            viol.append(f'VIOLATION property={pid} replay={f} no-failing-input-found')
    if not viol and infra:
        for r in infra: print('INFRASTRUCTURE', r['task'], r['crash'], file=sys.stderr)
        rc = 2
    if not viol and vac:
        for t, o in vac: print('VACUOUS', t, o['what'], file=sys.stderr)
        bounded |= {f'{t}: {o["what"]} is not reachable under the configuration' for t, o in vac}
    for o in soft: bounded.add(f'{o["task"]}: obligation not decided ({o["status"]}): {o["what"]}')
    for v in viol: print(v); rc = 1
    ev['violations'] = len(viol); ev['violation_lines'] = viol
    ev['coverage'] = {'proof': {'obligations': obl, 'discharged': dis, 'checker_cmd': f'python3-vt /verif/check.py {pid} {tier}', 'trusted_base': TRUSTED + list(getattr(p, 'TRUSTED', []))},
        'functions_under_contract': sorted(fns), 'obligations_by_kind': kinds, 'discharged_by': by, 'solver_s': round(st, 1), 'tasks': len(tasks),
        'loops_summarised_without_bound': loops[0], 'loops_with_constant_trip_count_executed': loops[1],
        'bounded_or_undecided': sorted(bounded), 'hunt': {k: v for k, v in (h or {}).items() if k != 'hits'}, 'failed': obls[:20]}
    ev['coverage']['proof']['undischarged'] = len(fails) + len(unk)
    ev['assumptions'] = sorted(assum | set(getattr(p, 'ASSUMPTIONS', [])))
    ev['wall_s'] = round(time.time() - t0, 1)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    print(f'{pid} {tier}: {dis}/{obl} obligations discharged over {len(fns)} functions, {len(unsup)} tasks out of reach, {len(unk)} undecided; hunt {"" if not h else h.get("cases", 0)} cases; {ev["wall_s"]} s')
    if os.environ.get('VERIF_V'):
        for b in sorted(bounded): print('  bounded:', b)
        for r in sorted(res, key=lambda r: -r['wall'])[:int(os.environ['VERIF_V'])]: print('  task', r['task'], round(r['wall'], 1), 's', len(r['obls']), 'obligations')
    sys.exit(rc)

def replay(pid, f):
    """re-run the failing inputs stored in a replay file against the current /repo"""
    d = json.load(open(f))
    p = importlib.import_module(pid.lower())
    if not d.get('failing'):
        print(json.dumps(d, indent=1)); sys.exit(1)
    bad = 0
    for x in d['failing']:
        r = p.rerun(x) if hasattr(p, 'rerun') else None
        print(json.dumps(x, default=str)[:800], '->', r)
        bad |= bool(r)
    sys.exit(1 if bad else 0)

if __name__ == '__main__': main()
