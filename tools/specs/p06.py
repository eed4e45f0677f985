from runpy import run_path; import os
R = run_path(os.path.join(os.path.dirname(__file__), 'p07.py'))['R'].replace('def nb(', '''def mir(i, n):
    return -1 - i if i < 0 else 2 * n - 1 - i if i >= n else i
def nb(''')
K = 'src/core/kernel/x86/'
SEEDS = [
 dict(id='P06-coef-128', property='P06', needs='an 8-bit clip, a 5x5 or larger matrix with a coefficient of exactly 128 and a CPU with AVX-512 VNNI', breaks='the coefficient 128 is packed into a signed byte and becomes -128',
  edits=[('src/core/genericfilters.cpp', 'if (ci < -128 || ci > 127)', 'if (ci < -128 || ci > 128)')],
  demo=R + '''
for top in (127, 128):
    c, b = noise(150, 8, vs.GRAY8, 0, 255); m = [1] * 25; m[12] = top
    o = []
    for lv in ('none', 'avx512'):
        core.std.SetMaxCPU(lv); f = core.std.Convolution(c, m).get_frame(0)[0]; o.append([[f[y, x] for x in range(150)] for y in range(8)])
    check(o[0] == o[1], top)
    for y in range(8):
        for x in range(150):
            s = sum(m[5 * (dy + 2) + dx + 2] * b[0][mir(y + dy, 8)][mir(x + dx, 150)] for dy in range(-2, 3) for dx in range(-2, 3))
            check(abs(o[1][y][x] - min(255, s / (24 + top))) < .51, (top, y, x))
core.std.SetMaxCPU('avx512')
'''),
 dict(id='P06-narrow-row', property='P06', needs='horizontal mode on a plane 16 to 27 samples wide (32 to 43 with AVX-512), vector kernels, a long kernel', breaks='the right end of such a row is not mirrored in the first block, stale samples of the previous row are used',
  edits=[(K + 'convolution_impl.h', 'if (width < CENTER)\n                flip_right', 'if (width < HBLK)\n                flip_right')],
  demo=R + '''
m = [1, 2, 3, 4, 5, 6, 7, 8, 7, 6, 5, 4, 3, 2, 1]
for lv in ('none', 'sse2', 'avx2', 'avx512'):
    core.std.SetMaxCPU(lv)
    for w in (10, 20, 27, 35, 60):
        c, b = noise(w, 6, vs.GRAY16, 0, 65535); f = core.std.Convolution(c, m, mode='h').get_frame(0)[0]
        for y in range(6):
            for x in range(w): check(abs(f[y, x] - sum(k * b[0][y][mir(x + j - 7, w)] for j, k in enumerate(m)) / 64) < .51, (lv, w, y, x))
core.std.SetMaxCPU('avx512')
'''),
 dict(id='P06-edge-overflow', property='P06', needs='a 7x7 convolution of a 16-bit clip with large coefficients of one sign, AVX2 or AVX-512', breaks='the first and last columns are summed in 32 bits and overflow',
  edits=[(K + 'square_impl.h', '(sizeof(T) > 1 && N > 5), int64_t', '(sizeof(T) > 1 && N > 7), int64_t')],
  demo=R + '''
for lv in ('none', 'sse2', 'avx2', 'avx512'):
    core.std.SetMaxCPU(lv); c, b = noise(70, 8, vs.GRAY16, 65000, 65535); f = core.std.Convolution(c, [1000] * 49).get_frame(0)[0]
    for y in range(8):
        for x in range(70): check(65000 <= f[y, x] <= 65535, (lv, y, x, f[y, x]))
core.std.SetMaxCPU('avx512')
'''),
 dict(id='P06-wide-bottom', property='P06', needs='vertical or separable mode with at least three rows of overlap below the last line, vector kernels', breaks='rows mirrored at the bottom are taken one row too high from the second mirrored row on',
  edits=[(K + 'convolution_impl.h', 'height - std::min(k - support - dist_from_bottom, i)', 'height - std::min((k - support - dist_from_bottom) * 2 - 1, i)')],
  demo=R + '''
m = [1, 2, 3, 4, 3, 2, 1]
for lv in ('none', 'sse2', 'avx2', 'avx512'):
    core.std.SetMaxCPU(lv); c, b = noise(20, 9, vs.GRAY8, 0, 255); f = core.std.Convolution(c, m, mode='v').get_frame(0)[0]
    for y in range(9):
        for x in range(20): check(abs(f[y, x] - sum(k * b[0][mir(y + j - 3, 9)][x] for j, k in enumerate(m)) / 16) < .51, (lv, y, x))
core.std.SetMaxCPU('avx512')
'''),
]
