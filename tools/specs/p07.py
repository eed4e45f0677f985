from runpy import run_path; import os
G = run_path(os.path.join(os.path.dirname(__file__), 'p05.py'))['G']
GI = 'src/core/kernel/x86/generic_impl.h'; GC = 'src/core/kernel/generic.cpp'
R = G + '''
import random, ctypes
R = random.Random(5)
def noise(w, h, fmt, lo, hi):
    c = core.std.BlankClip(width=w, height=h, format=fmt, length=1, keep=True)
    b = [[[R.uniform(lo, hi) if isinstance(lo, float) else R.randint(lo, hi) for _ in range(w)] for _ in range(h)] for _ in range(c.format.num_planes)]
    def f(n, f):
        g = f.copy()
        for p in range(len(b)):
            v = g[p]
            for y in range(h):
                for x in range(w): v[y, x] = b[p][y][x]
        return g
    return core.std.ModifyFrame(c, c, f), b
def nb(b, y, x):
    h, w = len(b), len(b[0]); Y = [max(y - 1, 0), y, min(y + 1, h - 1)]; X = [max(x - 1, 0), x, min(x + 1, w - 1)]
    # edge samples are mirrored around the edge sample, which repeats it
    return [b[i][j] for i in Y for j in X]
'''
SEEDS = [
 dict(id='P07-one-vector', property='P07', needs='a SIMD kernel on a plane exactly one vector wide (16, 32 or 64 samples)', breaks='the right neighbour of the last column is read from the next row instead of being the edge sample',
  edits=[(GI, '            if (width > Traits::vec_len) {\n                a02', '            if (width >= Traits::vec_len) {\n                a02')],
  demo=R + '''
for lv in ('none', 'sse2', 'avx2', 'avx512'):
    core.std.SetMaxCPU(lv)
    for w in (16, 32, 64):
        c, b = noise(w, 8, vs.GRAY8, 0, 255); f = core.std.Minimum(c).get_frame(0)[0]
        for y in range(8): check(f[y, w - 1] == min(nb(b[0], y, w - 1)), (lv, w, y))
core.std.SetMaxCPU('avx512')
'''),
 dict(id='P07-stencil-v', property='P07', needs='Maximum/Minimum of a 9 to 16 bit clip with only the vertical neighbours enabled, vector kernels', breaks='the specialised kernel of the vertical stencil also uses the horizontal neighbours',
  edits=[(GI, 'MinMaxFixedWord<BACKEND, STENCIL_V, MAX>', 'MinMaxFixedWord<BACKEND, STENCIL_PLUS, MAX>')],
  demo=R + '''
for lv in ('none', 'sse2', 'avx2', 'avx512'):
    core.std.SetMaxCPU(lv); c, b = noise(50, 6, vs.GRAY16, 0, 65535)
    f = core.std.Maximum(c, coordinates=[0, 1, 0, 0, 0, 0, 1, 0]).get_frame(0)[0]
    for y in range(6):
        for x in range(50):
            a = nb(b[0], y, x); check(f[y, x] == max(a[1], a[4], a[7]), (lv, y, x))
core.std.SetMaxCPU('avx512')
'''),
 dict(id='P07-deflate-negative', property='P07', needs='Deflate with a threshold on negative float samples in the scalar kernel', breaks='the lower limit of a float sample is clamped to zero as for integer samples',
  edits=[(GC, '        Signed minval = std::is_integral<T>::value ? Signed{} : static_cast<Signed>(-INFINITY);\n        Signed limit = Inflate ? static_cast<Signed>(a11) + threshold', '        Signed minval{};\n        Signed limit = Inflate ? static_cast<Signed>(a11) + threshold')],
  demo=R + '''
for lv in ('none', 'sse2', 'avx2', 'avx512'):
    core.std.SetMaxCPU(lv); c, b = noise(20, 6, vs.GRAYS, -1.0, 1.0)
    f = core.std.Deflate(c, threshold=.25).get_frame(0)[0]
    for y in range(6):
        for x in range(20):
            a = nb(b[0], y, x); m = min((sum(a) - a[4]) / 8, a[4]); e = max(m, a[4] - .25); check(abs(f[y, x] - e) < 1e-5, (lv, y, x, f[y, x], e))
core.std.SetMaxCPU('avx512')
'''),
 dict(id='P07-scale-default', property='P07', needs='Sobel or Prewitt with an explicit scale above 1 on an integer clip whose gradient is large', breaks='the magnitude is clamped to the sample range before it is scaled down... (scale below 1 saturates early)',
  edits=[(GI, 'X', 'X')], demo=''),
][:3]
