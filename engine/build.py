"""Compiling /repo's current sources to IR and exporting it, with a content-addressed cache outside /repo."""
import os, subprocess, hashlib, json, sys, fcntl, glob
from ir import Module
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(os.path.dirname(HERE), 'build'))
DEFS = '-std=c++20 -fno-char8_t -fno-math-errno -D_FILE_OFFSET_BITS=64 -DVS_CURRENT_RELEASE=78 -DVS_GRAPH_API -DVS_USE_LATEST_API -DVSSCRIPT_USE_LATEST_API -Wno-everything -DVS_TARGET_OS_LINUX -DHAVE_SCHED_GETAFFINITY -DVS_TARGET_CPU_X86 -fPIC'.split()
INC = lambda: [f'-I{REPO}', f'-I{REPO}/include', f'-I{REPO}/src/core']
class BuildError(Exception): pass
def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
    if p.returncode: raise BuildError(' '.join(cmd[:8]) + '...\n' + p.stderr[-4000:])
    return p.stdout
def exporter():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(HERE, 'export.cpp'); h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(CACHE, f'vexport-{h}')
    if not os.path.exists(out):
        with open(os.path.join(CACHE, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                fl = sh(['llvm-config-18' if os.path.exists('/usr/bin/llvm-config-18') else 'llvm-config', '--cxxflags']).split()
                ld = sh(['llvm-config-18' if os.path.exists('/usr/bin/llvm-config-18') else 'llvm-config', '--ldflags']).split()
                sh(['clang++', '-O1', *fl, src, '-o', out + '.tmp', *ld, '-lLLVM-18']); os.rename(out + '.tmp', out)
    return out
def module(src, roots, stops=(), march='x86-64', extra=(), passes='', text=None, noinline=False):
    """Module for one or several translation units (paths relative to /repo, or (path, -march) pairs, or text of a unit that #includes real files)"""
    exp = exporter(); units = []
    if text is not None:
        h = hashlib.sha1(text.encode()).hexdigest()[:12]
        path = os.path.join(CACHE, f'tu-{h}.cpp')
        if not os.path.exists(path):
            open(path + f'.{os.getpid()}', 'w').write(text); os.rename(path + f'.{os.getpid()}', path)
        units.append((path, march))
    else:
        for u in ([src] if isinstance(src, str) else src): units.append((os.path.join(REPO, u), march) if isinstance(u, str) else (os.path.join(REPO, u[0]), u[1]))
    hs = hashlib.sha1(repr((roots, list(stops), march, extra, passes, noinline, os.path.basename(exp))).encode())
    flags = ['-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-gline-tables-only', *DEFS, *INC(), *extra]; parts = []
    for path, mc in units:
        pp = subprocess.run(['clang++', '-E', '-P', *flags, f'-march={mc}', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pp.returncode: raise BuildError(pp.stderr.decode()[-4000:])
        h = hashlib.sha1(pp.stdout + repr((path, mc, flags)).encode()); hs.update(h.digest()); parts.append((path, mc, h.hexdigest()[:16]))
    out = os.path.join(CACHE, f'm-{hs.hexdigest()[:16]}.json')
    with lock(out):
        if not os.path.exists(out):
            bcs = []
            for path, mc, h in parts:
                bc = os.path.join(CACHE, f'u-{h}.bc')
                with lock(bc):
                    if not os.path.exists(bc): sh(['clang++', *flags, f'-march={mc}', '-emit-llvm', '-c', path, '-o', bc + '.tmp']); os.rename(bc + '.tmp', bc)
                bcs.append(bc)
            lnk = bcs[0]
            if len(bcs) > 1: lnk = out + '.bc'; sh(['llvm-link-18' if os.path.exists('/usr/bin/llvm-link-18') else 'llvm-link', *bcs, '-o', lnk])
            cmd = [exp, lnk, '-o', out + '.tmp']
            for r in roots: cmd.append('--root=' + r)
            for r in stops: cmd.append('--stop=' + r)
            if passes: cmd.append('--passes=' + passes)
            if noinline: cmd.append('--noinline')
            try: sh(cmd)
            finally:
                if len(bcs) > 1: os.unlink(lnk)
            os.rename(out + '.tmp', out)
    return Module(out)
class lock:
    def __init__(s, f): s.f = f
    def __enter__(s): s.h = open(s.f + '.lock', 'w'); fcntl.flock(s.h, fcntl.LOCK_EX)
    def __exit__(s, *a): s.h.close()
