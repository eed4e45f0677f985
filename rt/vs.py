"""Thin ctypes driver over the real VapourSynth C API (built by buildrt from the current tree).
Signatures are read from include/VapourSynth4.h."""
import ctypes as C, re, os, sys
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import buildrt

GRAY, RGB, YUV = 1, 2, 3
INT, FLT = 0, 1
RPGEN, RPNOREUSE, RPSPATIAL = 0, 1, 2


class VideoFormat(C.Structure):
    _fields_ = [(n, C.c_int) for n in ('colorFamily', 'sampleType', 'bitsPerSample', 'bytesPerSample', 'subSamplingW', 'subSamplingH', 'numPlanes')]
    def key(self):
        return tuple(getattr(self, n) for n, _ in self._fields_)


class VideoInfo(C.Structure):
    _fields_ = [('format', VideoFormat), ('fpsNum', C.c_int64), ('fpsDen', C.c_int64), ('width', C.c_int), ('height', C.c_int), ('numFrames', C.c_int)]


class AudioFormat(C.Structure):
    _fields_ = [('sampleType', C.c_int), ('bitsPerSample', C.c_int), ('bytesPerSample', C.c_int), ('numChannels', C.c_int), ('channelLayout', C.c_uint64)]


class AudioInfo(C.Structure):
    _fields_ = [('format', AudioFormat), ('sampleRate', C.c_int), ('numSamples', C.c_int64), ('numFrames', C.c_int)]


class FilterDependency(C.Structure):
    _fields_ = [('source', C.c_void_p), ('requestPattern', C.c_int)]


class CoreInfo2(C.Structure):
    _fields_ = [('versionString', C.c_char_p), ('coreVersion', C.c_int), ('apiVersion', C.c_int), ('creationFlags', C.c_int),
                ('numThreads', C.c_int), ('maxFramebufferSize', C.c_int64), ('usedFramebufferSize', C.c_int64)]


GETFRAME = C.CFUNCTYPE(C.c_void_p, C.c_int, C.c_int, C.c_void_p, C.POINTER(C.c_void_p), C.c_void_p, C.c_void_p, C.c_void_p)
FREEF = C.CFUNCTYPE(None, C.c_void_p, C.c_void_p, C.c_void_p)
DONECB = C.CFUNCTYPE(None, C.c_void_p, C.c_void_p, C.c_int, C.c_void_p, C.c_char_p)
PUBF = C.CFUNCTYPE(None, C.c_void_p, C.c_void_p, C.c_void_p, C.c_void_p, C.c_void_p)
LOGH = C.CFUNCTYPE(None, C.c_int, C.c_char_p, C.c_void_p)


def ctype(t, ret=False):
    t = re.sub(r'\b(const|struct)\b', '', t).strip()
    if t.endswith('*'):
        base = t[:-1].strip()
        if base == 'char':
            return C.c_char_p
        return C.c_void_p
    return {'int': C.c_int, 'int64_t': C.c_int64, 'uint32_t': C.c_uint32, 'uint64_t': C.c_uint64, 'double': C.c_double,
            'float': C.c_float, 'ptrdiff_t': C.c_ssize_t, 'void': None}.get(t, C.c_void_p)


def api_table(struct='VSAPI', header=None):
    txt = open(header or f'{buildrt.REPO}/include/VapourSynth4.h').read()
    txt = re.sub(r'/\*.*?\*/', '', txt, flags=re.S)
    m = re.search(r'struct %s \{(.*?)\n\}' % struct, txt, re.S)
    out = []
    for d in re.finditer(r'([\w\s\*]+?)\(VS_CC \*(\w+)\)\((.*?)\)\s*VS_NOEXCEPT;', m.group(1), re.S):
        ret = ' '.join(l for l in d.group(1).split('\n') if not l.strip().startswith('#')).strip()
        args = [] if d.group(3).strip() in ('', 'void') else [re.sub(r'\b\w+$', '', a.strip()).strip() for a in d.group(3).split(',')]
        out.append((d.group(2), ret, args))
    return out


class Api:
    def __init__(self, libdir=None):
        self.libdir = libdir or buildrt.build('-O2')
        self.lib = C.CDLL(self.libdir + '/libvapoursynth.so', mode=C.RTLD_GLOBAL)
        f = self.lib.getVapourSynthAPI
        f.restype = C.c_void_p
        f.argtypes = [C.c_int]
        self.ptr = f((4 << 16) | 2) or f(4 << 16)
        assert self.ptr
        tab = api_table()
        arr = (C.c_void_p * len(tab)).from_address(self.ptr)
        for i, (n, r, a) in enumerate(tab):
            if arr[i]:
                at = []
                for x in a:
                    at.append(ctype(x))
                ft = C.CFUNCTYPE(ctype(r, True), *at)
                setattr(self, n, ft(arr[i]))


_api = None
def api():
    global _api
    if _api is None:
        _api = Api()
    return _api


def dtype(sampletype, bytes_):
    return {(0, 1): np.uint8, (0, 2): np.uint16, (0, 4): np.uint32, (1, 2): np.float16, (1, 4): np.float32}[(sampletype, bytes_)]


def adtype(sampletype, bytes_):
    return {(0, 2): np.int16, (0, 4): np.int32, (1, 4): np.float32}[(sampletype, bytes_)]


class VSError(Exception):
    pass


class Frame:
    """Owns one frame reference."""
    def __init__(self, p, a):
        self.p, self.a = p, a
    def __del__(self):
        if self.p:
            self.a.freeFrame(self.p)
            self.p = None
    @property
    def fmt(self):
        return VideoFormat.from_buffer_copy((C.c_char * C.sizeof(VideoFormat)).from_address(self.a.getVideoFrameFormat(self.p)))
    @property
    def afmt(self):
        return AudioFormat.from_buffer_copy((C.c_char * C.sizeof(AudioFormat)).from_address(self.a.getAudioFrameFormat(self.p)))
    def is_audio(self):
        return self.a.getFrameType(self.p) == 2
    def plane(self, i, writable=False):
        a = self.a
        if self.is_audio():
            f = self.afmt
            n = a.getFrameLength(self.p)
            dt = np.dtype(adtype(f.sampleType, f.bytesPerSample))
            ptr = a.getWritePtr(self.p, i) if writable else a.getReadPtr(self.p, i)
            return np.frombuffer((C.c_char * (n * dt.itemsize)).from_address(ptr), dt) if writable else \
                np.frombuffer(C.string_at(ptr, n * dt.itemsize), dt)
        f = self.fmt
        w, h, s = a.getFrameWidth(self.p, i), a.getFrameHeight(self.p, i), a.getStride(self.p, i)
        dt = np.dtype(dtype(f.sampleType, f.bytesPerSample))
        ptr = a.getWritePtr(self.p, i) if writable else a.getReadPtr(self.p, i)
        buf = (C.c_uint8 * (s * h)).from_address(ptr)
        full = np.frombuffer(buf, np.uint8).reshape(h, s)
        v = full[:, :w * dt.itemsize].view(dt) if w else np.zeros((h, 0), dt)
        return v if writable else v.copy()
    def stride(self, i):
        return self.a.getStride(self.p, i)
    def planes(self):
        n = self.afmt.numChannels if self.is_audio() else self.fmt.numPlanes
        return [self.plane(i) for i in range(n)]
    def props(self):
        return mapread(self.a, self.a.getFramePropertiesRO(self.p))


def mapread(a, m, nodes=False):
    """whole map -> dict key -> (type, [values])"""
    r = {}
    for i in range(a.mapNumKeys(m)):
        k = a.mapGetKey(m, i)
        r[k.decode('latin1')] = mapget(a, m, k)
    return r


def mapget(a, m, k):
    t = a.mapGetType(m, k)
    n = a.mapNumElements(m, k)
    e = C.c_int()
    pe = C.addressof(e)
    v = []
    for j in range(n):
        if t == 1:
            v.append(a.mapGetInt(m, k, j, pe))
        elif t == 2:
            v.append(a.mapGetFloat(m, k, j, pe))
        elif t == 3:
            sz = a.mapGetDataSize(m, k, j, pe)
            # c_char_p restype truncates at NUL: use the raw pointer
            p = C.cast(_rawdata(a)(m, k, j, pe), C.c_void_p).value
            v.append((C.string_at(p, sz), a.mapGetDataTypeHint(m, k, j, pe)))
        elif t in (7, 8):
            p = a.mapGetFrame(m, k, j, pe)
            v.append(Frame(p, a))
        elif t in (5, 6):
            v.append(Node(a.mapGetNode(m, k, j, pe), a))
        else:
            v.append(None)
    return (t, v)


_raw = {}
def _rawdata(a):
    if id(a) not in _raw:
        tab = api_table()
        i = [n for n, _, _ in tab].index('mapGetData')
        arr = (C.c_void_p * len(tab)).from_address(a.ptr)
        _raw[id(a)] = C.CFUNCTYPE(C.c_void_p, C.c_void_p, C.c_char_p, C.c_int, C.c_void_p)(arr[i])
    return _raw[id(a)]


class Node:
    def __init__(self, p, a, keep=()):
        assert p
        self.p, self.a, self.keep = p, a, keep
    def __del__(self):
        if self.p:
            self.a.freeNode(self.p)
            self.p = None
    @property
    def vi(self):
        return VideoInfo.from_buffer_copy((C.c_char * C.sizeof(VideoInfo)).from_address(self.a.getVideoInfo(self.p)))
    @property
    def ai(self):
        return AudioInfo.from_buffer_copy((C.c_char * C.sizeof(AudioInfo)).from_address(self.a.getAudioInfo(self.p)))
    def is_audio(self):
        return self.a.getNodeType(self.p) == 2
    def frame(self, n):
        buf = C.create_string_buffer(512)
        p = self.a.getFrame(n, self.p, buf, 512)
        if not p:
            raise VSError(buf.value.decode('utf8', 'replace'))
        return Frame(p, self.a)
    def audio(self):
        """all samples, channels x numSamples"""
        ai = self.ai
        fr = [self.frame(i).planes() for i in range(ai.numFrames)]
        return [np.concatenate([f[c] for f in fr]) for c in range(ai.format.numChannels)]


class Core:
    def __init__(self, flags=0, threads=None, level=None):
        self.a = api()
        self.p = self.a.createCore(flags)
        if threads:
            self.a.setThreadCount(threads, self.p)
        self._cb = []
        self.level = level
        if level is not None:
            self.set_level(level)
    def set_level(self, level):
        self.call('std', 'SetMaxCPU', cpu=level)
    def close(self):
        if self.p:
            self.a.freeCore(self.p)
            self.p = None
    def format(self, cf, st, bits, ssw=0, ssh=0):
        f = VideoFormat()
        if not self.a.queryVideoFormat(C.addressof(f), cf, st, bits, ssw, ssh, self.p):
            raise VSError('bad format')
        return f
    def aformat(self, st, bits, layout):
        f = AudioFormat()
        if not self.a.queryAudioFormat(C.addressof(f), st, bits, layout, self.p):
            raise VSError('bad audio format')
        return f
    def mkframe(self, fmt, w, h, planes=None, props=None):
        f = Frame(self.a.newVideoFrame(C.addressof(fmt), w, h, None, self.p), self.a)
        if planes is not None:
            for i, pl in enumerate(planes):
                f.plane(i, True)[...] = pl
        if props:
            self.setprops(self.a.getFramePropertiesRW(f.p), props)
        return f
    def mkaframe(self, fmt, n, planes=None):
        f = Frame(self.a.newAudioFrame(C.addressof(fmt), n, None, self.p), self.a)
        if planes is not None:
            for i, pl in enumerate(planes):
                f.plane(i, True)[...] = pl
        return f
    def setprops(self, m, props, append=0):
        a = self.a
        for k, v in props.items():
            kk = k.encode()
            if not isinstance(v, (list, tuple, np.ndarray)):
                v = [v]
            if isinstance(v, np.ndarray) and not append:
                if v.dtype.kind == 'f': v = np.ascontiguousarray(v, np.float64); r = a.mapSetFloatArray(m, kk, v.ctypes.data_as(C.POINTER(C.c_double)), len(v))
                else: v = np.ascontiguousarray(v, np.int64); r = a.mapSetIntArray(m, kk, v.ctypes.data_as(C.POINTER(C.c_int64)), len(v))
                assert r == 0; continue
            for j, x in enumerate(v):
                mode = append if j == 0 else 1
                if isinstance(x, (bool, int, np.integer)):
                    r = a.mapSetInt(m, kk, int(x), mode)
                elif isinstance(x, (float, np.floating)):
                    r = a.mapSetFloat(m, kk, float(x), mode)
                elif isinstance(x, str):
                    b = x.encode()
                    r = a.mapSetData(m, kk, b, len(b), 1, mode)
                elif isinstance(x, bytes):
                    r = a.mapSetData(m, kk, x, len(x), 0, mode)
                elif isinstance(x, Node):
                    r = a.mapSetNode(m, kk, x.p, mode)
                elif isinstance(x, Frame):
                    r = a.mapSetFrame(m, kk, x.p, mode)
                elif isinstance(x, Func):
                    r = a.mapSetFunction(m, kk, x.p, mode)
                else:
                    raise TypeError(type(x))
                if r:
                    raise VSError(f'map set failed {k}')
    def call(self, ns, fn, **args):
        a = self.a
        pl = a.getPluginByNamespace(ns.encode(), self.p)
        assert pl, ns
        m = a.createMap()
        try:
            self.setprops(m, {k: v for k, v in args.items() if v is not None})
            out = a.invoke(pl, fn.encode(), m)
        finally:
            a.freeMap(m)
        err = a.mapGetError(out)
        if err is not None:
            a.freeMap(out)
            raise VSError(err.decode('utf8', 'replace'))
        r = mapread(a, out)
        a.freeMap(out)
        keep = [v for v in args.values()]
        for t, vs in r.values():
            for v in vs:
                if isinstance(v, Node):
                    v.keep = keep
        return r
    def std(self, fn, **args):
        r = self.call('std', fn, **args)
        for k in ('clip',):
            if k in r:
                vs = r[k][1]
                return vs[0] if len(vs) == 1 else vs
        return r
    def source(self, fmt, w, h, frames, fps=(24, 1), log=None, mode=0, vary=False):
        """frames: list of Frame (or callable n -> Frame). A node delivering exactly these."""
        n = frames[1] if isinstance(frames, tuple) else len(frames)
        get = frames[0] if isinstance(frames, tuple) else (lambda i: frames[i])
        vi = VideoInfo(VideoFormat() if vary else fmt, fps[0], fps[1], 0 if vary else w, 0 if vary else h, n)
        a = self.a
        def gf(i, reason, inst, fd, ctx, core, vsapi):
            if reason != 0:
                return None
            if log is not None:
                log.append(i)
            f = get(i)
            return a.addFrameRef(f.p)
        cb = GETFRAME(gf)
        self._cb.append(cb)
        self._cb.append(frames)
        p = a.createVideoFilter2(b'src', C.addressof(vi), C.cast(cb, C.c_void_p), None, mode, None, 0, None, self.p)
        return Node(p, a, (cb, frames))
    def asource(self, fmt, rate, chans, log=None):
        """chans: list of 1-D arrays of equal length"""
        nsamp = len(chans[0])
        nf = (nsamp + 3071) // 3072
        frames = []
        for i in range(nf):
            sl = slice(i * 3072, min(nsamp, (i + 1) * 3072))
            frames.append(self.mkaframe(fmt, sl.stop - sl.start, [c[sl] for c in chans]))
        ai = AudioInfo(fmt, rate, nsamp, nf)
        a = self.a
        def gf(i, reason, inst, fd, ctx, core, vsapi):
            if reason != 0:
                return None
            if log is not None:
                log.append(i)
            return a.addFrameRef(frames[i].p)
        cb = GETFRAME(gf)
        self._cb.append(cb)
        self._cb.append(frames)
        p = a.createAudioFilter2(b'asrc', C.addressof(ai), C.cast(cb, C.c_void_p), None, 0, None, 0, None, self.p)
        return Node(p, a, (cb, frames))


class Func:
    def __init__(self, core, pyfn):
        self.a = core.a
        def f(i, o, ud, c, api):
            pyfn(i, o)
        self.cb = PUBF(f)
        core._cb.append(self.cb)
        self.p = self.a.createFunction(C.cast(self.cb, C.c_void_p), None, None, core.p)
    def __del__(self):
        self.a.freeFunction(self.p)


def randplane(rng, st, bits, h, w, chroma=False):
    if st == FLT:
        x = rng.random((h, w)) * 1.4 - (0.7 if chroma else 0.2)
        return x.astype(np.float16 if bits == 16 else np.float32)
    dt = np.uint8 if bits <= 8 else np.uint16 if bits <= 16 else np.uint32
    hi = 1 << bits
    mode = rng.integers(0, 3)
    if mode == 0:
        return rng.integers(0, hi, (h, w), dtype=np.uint64).astype(dt)
    if mode == 1:
        return rng.choice(np.array([0, 1, hi // 2 - 1, hi // 2, hi - 2, hi - 1], dtype=np.uint64), (h, w)).astype(dt)
    base = int(rng.integers(0, hi))
    return np.clip(base + rng.integers(-4, 5, (h, w)), 0, hi - 1).astype(dt)


def randframe(core, rng, fmt, w, h, props=None):
    pl = []
    for i in range(fmt.numPlanes):
        pw = w >> (fmt.subSamplingW if i and fmt.colorFamily == YUV else 0)
        ph = h >> (fmt.subSamplingH if i and fmt.colorFamily == YUV else 0)
        pl.append(randplane(rng, fmt.sampleType, fmt.bitsPerSample, ph, pw, i > 0 and fmt.colorFamily == YUV))
    return core.mkframe(fmt, w, h, pl, props)
