"""The real output program (src/vspipe, src/common/wave.cpp of the current tree) run in this process; only the scripting
library is replaced, so that the output nodes can be built by the caller."""
import ctypes as C, os, subprocess, hashlib
import buildrt, vs
SRC = ['src/common/wave.cpp', 'src/vspipe/printgraph.cpp', 'src/vspipe/vsjson.cpp', 'src/vspipe/vspipe.cpp']
def build():
    """path of the shared object, or None when these sources cannot be built this way"""
    R = buildrt.REPO; flags = ['-std=c++20', '-fno-char8_t', '-O1', '-fPIC', '-w', '-pthread', f'-I{R}/include', f'-I{R}/src/vspipe', f'-I{R}/src/common', *buildrt.defs()]
    os.makedirs(buildrt.BUILD, exist_ok=True); objs = []
    jobs = [(f'{R}/{s}', ['-Dmain=vspipe_main']) for s in SRC] + [(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pipe_stub.cpp'), [])]
    h = hashlib.sha1(); ps = [subprocess.Popen(['g++', *flags, *x, '-E', '-P', s], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for s, x in jobs]
    for p in ps:
        t = p.communicate()[0]
        if p.returncode: return None
        h.update(t)
    so = os.path.join(buildrt.BUILD, f'pipe-{h.hexdigest()[:16]}.so')
    if not os.path.exists(so):
        ps = [subprocess.Popen(['g++', *flags, *x, '-c', s, '-o', f'{so}.{os.getpid()}.{i}.o'], stderr=subprocess.DEVNULL) for i, (s, x) in enumerate(jobs)]
        objs = [f'{so}.{os.getpid()}.{i}.o' for i in range(len(jobs))]
        ok = all([p.wait() == 0 for p in ps]) and subprocess.run(['g++', '-shared', '-pthread', *objs, '-o', f'{so}.{os.getpid()}'], stderr=subprocess.DEVNULL).returncode == 0
        for o in objs:
            if os.path.exists(o): os.unlink(o)
        if not ok: return None
        os.rename(f'{so}.{os.getpid()}', so)
    return so
NODE, VARS, DONE = C.CFUNCTYPE(C.c_void_p, C.c_void_p, C.c_int, C.c_int), C.CFUNCTYPE(None, C.c_void_p), C.CFUNCTYPE(None)
class Pipe:
    def __init__(s):
        s.api = vs.api(); so = build(); s.lib = C.CDLL(so) if so else None
    def run(s, make, args, outputs=(0,)):
        """make(core, index, alpha) -> Node or None, called on the program's own core; returns (exit code, script arguments)"""
        a = s.api; keep = []; got = {}
        class K(vs.Core):
            def __init__(k, p): k.a = a; k.p = p; k._cb = []; k.level = None
        def node(c, i, al):
            k = K(c); n = make(k, i, al); keep.append((k, n))
            return a.addNodeRef(n.p) if n is not None else None
        def done():
            for k, n in keep:
                if n is not None: n.__del__(); n.keep = ()
            for k, n in keep: k._cb.clear()
            keep.clear()
        cb = NODE(node), VARS(lambda m: got.update(vs.mapread(a, m))), DONE(done)
        av = [b'vspipe'] + [x.encode() for x in args]; argv = (C.c_char_p * (len(av) + 1))(*av, None); out = (C.c_int * 16)(*outputs)
        s.lib.pipe_run.argtypes = [NODE, VARS, DONE, C.c_void_p, C.c_int, C.c_int, C.c_void_p]
        return s.lib.pipe_run(*cb, C.addressof(out), len(outputs), len(av), C.addressof(argv)), got
