#!/usr/bin/env python3
"""seed.py SPECFILE: make /verif/seeded/<id> entries from (id, property, needs, breaks, edits, demo) after confirming each
in /repo (applied, built, stable tests, demo both ways, undone)."""
import sys, os, subprocess, json, runpy, shutil
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# run with cwd /repo after the build
d=$(dirname "$(realpath "$0")")
export PATH=/opt/vp/venv/bin:$PATH PYTHONPATH=/repo/_inst/site PYTHONDONTWRITEBYTECODE=1
exec timeout 250 python3 "$d/demo.py"
'''
HEAD = '''import sys, os, random, math
import vapoursynth as vs
core = vs.core
def check(c, m):
    if not c:
        print('FAILED:', m); sys.stdout.flush(); os._exit(1)
'''
def main():
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    only = sys.argv[2:]
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        d = os.path.join(SEED, s['id'])
        if only and s['id'] not in only or not only and os.path.exists(d): continue
        ok = True
        try:
            for f, a, b in s['edits']:
                p = '/repo/' + f; t = open(p, newline='').read()
                if '\r\n' in t: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
                assert t.count(a) == 1, (s['id'], f, t.count(a), a[:80])
                open(p, 'w', newline='').write(t.replace(a, b))
            patch = sh('git -C /repo diff').stdout
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE).stdout.decode('utf8', 'surrogateescape') if False else '')
            open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE).stdout)
            open(d + '/demo.sh', 'w').write(s.get('sh', DEMO)); os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.py', 'w').write(HEAD + s['demo'] + "\nprint('ok'); sys.stdout.flush(); os._exit(0)\n")
            for fn, tx in s.get('files', {}).items(): open(d + '/' + fn, 'w').write(tx)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            r = sh('bash /opt/vp/test.sh /tmp/seed-res.json')
            res = json.load(open('/tmp/seed-res.json')); miss = stable - set(res['passed'])
            if miss: print(s['id'], 'TESTS FAIL', sorted(miss)[:3], r.stdout[-500:] if not res['passed'] else ''); ok = False
            else:
                r = sh(f'bash {d}/demo.sh', cwd='/repo')
                if r.returncode == 0: print(s['id'], 'demo passes with the bug'); ok = False
                else: msg = r.stdout.strip()[-200:]
        except AssertionError as e: print('ASSERT', e); ok = False
        finally:
            sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
        if ok:
            r = sh(f'bash {d}/demo.sh', cwd='/repo')
            if r.returncode: print(s['id'], 'demo fails on the unchanged tree:', r.stdout[-400:]); ok = False
        print(s['id'], 'OK' if ok else 'REJECTED', msg if ok else '')
        if not ok: shutil.rmtree(d, ignore_errors=True)
main()
