"""Builds the real core + standard filter plugin from the current working tree of /repo.
Objects are kept in a content-addressed cache outside /repo (keyed by the preprocessed inputs through
`-MD` dependency lists), so every run reflects the tree as it is now."""
import os, sys, hashlib, subprocess, json, concurrent.futures as cf, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_CACHE', os.path.join(os.path.dirname(HERE), 'build'))
ODIR = os.path.join(BUILD, 'rt')

CORE = ['cpufeatures', 'internalfilters', 'kernel/cpulevel', 'memoryuse', 'textfilter', 'vsapi', 'vscore', 'vslog', 'vsthreadpool']
FILT = ['audiofilters', 'audioresampling', 'averageframesfilter', 'boxblurfilter', 'coreplugins', 'cpufeatures', 'exprfilter',
        'expr/expr', 'expr/jitcompiler', 'genericfilters', 'kernel/cpulevel', 'kernel/generic', 'kernel/merge',
        'kernel/planestats', 'kernel/transpose', 'lutfilters', 'mergefilters', 'reorderfilters', 'simplefilters',
        'expr/jitcompiler_x86', 'kernel/x86/convolution_sse2', 'kernel/x86/generic_sse2', 'kernel/x86/merge_sse2',
        'kernel/x86/planestats_sse2', 'kernel/x86/transpose_sse2']
A2 = ['convolution_avx2', 'generic_avx2', 'merge_avx2', 'planestats_avx2']
A5 = ['convolution_avx512', 'generic_avx512', 'lut_avx512', 'merge_avx512']


def defs():
    rel = open(f'{REPO}/VAPOURSYNTH_VERSION').read().split()[2].split('-')[0]
    return ['-DNOMINMAX', f'-DVS_CURRENT_RELEASE={rel}', '-DVS_GRAPH_API', '-DVS_USE_LATEST_API',
            '-DVSSCRIPT_USE_LATEST_API', '-DVS_TARGET_OS_LINUX', '-DHAVE_SCHED_GETAFFINITY', '-DVS_TARGET_CPU_X86']


def jobs(opt):
    j = []
    base = ['-std=c++20', '-fno-char8_t', '-fno-math-errno', '-pthread', '-D_FILE_OFFSET_BITS=64', opt, '-fPIC', '-w', '-fvisibility=hidden', f'-I{REPO}/include']
    for s in CORE:
        j.append(('core', f'{REPO}/src/core/{s}.cpp', base + ['-DVS_CORE_EXPORTS']))
    j.append(('core', f'{HERE}/resize_stub.cpp', base + ['-DVS_CORE_EXPORTS']))
    for s in FILT:
        j.append(('filt', f'{REPO}/src/core/{s}.cpp', base))
    for s in A2:
        j.append(('filt', f'{REPO}/src/core/kernel/x86/{s}.cpp', base + ['-march=x86-64-v3']))
    for s in A5:
        j.append(('filt', f'{REPO}/src/core/kernel/x86/{s}.cpp', base + ['-march=x86-64-v4']))
    # extra sources a refactoring may have added are picked up from meson.build
    try:
        mb = open(f'{REPO}/meson.build').read()
        import re
        sect = mb[mb.index('filters_sources = files('):mb.index('if enable_x86_asm', mb.index('filters_sources = files('))]
        for p in re.findall(r"'src/core/([^']+)\.cpp'", sect):
            if p not in FILT:
                j.append(('filt', f'{REPO}/src/core/{p}.cpp', base))
    except (OSError, ValueError):
        pass
    return j


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]


_fh = {}
def filehash(p):
    if p not in _fh:
        try:
            with open(p, 'rb') as f:
                _fh[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _fh[p] = 'missing'
    return _fh[p]


def compile_one(src, flags):
    key = sha(src.replace(REPO, '@'), ' '.join(flags).replace(REPO, '@'), *defs())
    man = os.path.join(ODIR, key + '.dep')
    if os.path.exists(man):
        for line in open(man):
            ent = json.loads(line)
            if all(filehash(p.replace('@', REPO)) == h for p, h in ent['deps']):
                if os.path.exists(ent['obj'].replace('@', ODIR)):
                    return ent['obj'].replace('@', ODIR)
    tmp = os.path.join(ODIR, f'{key}.{os.getpid()}')
    cmd = ['g++', *flags, *defs(), '-MD', '-MF', tmp + '.d', '-c', src, '-o', tmp + '.o']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('compile failed: ' + src + '\n' + r.stderr[-3000:])
    txt = open(tmp + '.d').read().split(':', 1)[1].replace('\\\n', ' ')
    deps = sorted({d for d in txt.split() if d.startswith(REPO) or d.startswith(HERE)})
    dl = [(d.replace(REPO, '@'), filehash(d)) for d in deps]
    obj = os.path.join(ODIR, sha(key, json.dumps(dl)) + '.o')
    os.replace(tmp + '.o', obj)
    os.unlink(tmp + '.d')
    with open(man, 'a') as f:
        f.write(json.dumps({'deps': dl, 'obj': obj.replace(ODIR, '@')}) + '\n')
    return obj


def build(opt='-O1'):
    """-> directory holding libvapoursynth.so and libvapoursynthfilters.so"""
    os.makedirs(ODIR, exist_ok=True)
    with open(os.path.join(ODIR, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        js = jobs(opt)
        order = sorted(range(len(js)), key=lambda i: -os.path.getsize(js[i][1]) if os.path.exists(js[i][1]) else 0)
        objs = [None] * len(js)
        with cf.ThreadPoolExecutor(8) as ex:
            fs = {ex.submit(compile_one, js[i][1], js[i][2]): i for i in order}
            for f in cf.as_completed(fs):
                objs[fs[f]] = f.result()
        out = os.path.join(ODIR, 'so_' + sha(*objs, open(os.path.join(HERE, 'buildrt.py')).read()))
        if not os.path.exists(out + '/ok'):
            os.makedirs(out, exist_ok=True)
            procs = []
            for kind, name in (('core', 'libvapoursynth.so'), ('filt', 'libvapoursynthfilters.so')):
                os_ = [o for o, j in zip(objs, js) if j[0] == kind]
                cmd = ['g++', '-shared', '-o', f'{out}/{name}', *os_, '-ldl', '-lpthread', '-lzimg']
                procs.append(subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True))
            for p in procs:
                e = p.communicate()[1]
                if p.returncode:
                    raise RuntimeError('link failed: ' + e[-3000:])
            open(out + '/ok', 'w').close()
        return out


if __name__ == '__main__':
    print(build(sys.argv[1] if len(sys.argv) > 1 else '-O1'))
