from runpy import run_path; import os
G = run_path(os.path.join(os.path.dirname(__file__), 'p05.py'))['G']
GF = 'src/core/genericfilters.cpp'; L = 'src/core/lutfilters.cpp'; LK = 'src/core/kernel/x86/lut_avx512.cpp'
SEEDS = [
 dict(id='P08-range-repeat', property='P08', needs='Levels on a three-plane clip with exactly two values for one argument', breaks='the third plane of a per-plane argument repeats the first value instead of the previous one',
  edits=[(GF, 'fval[plane] = prevValid ? fval[plane - 1] : defval;', 'fval[plane] = prevValid ? fval[plane > 1 ? plane - 2 + (vsapi->mapNumElements(in, propName) != 2) : 0] : defval;')],
  demo=G + '''
c = const(16, 4, vs.YUV444P8, [[100], [100], [100]])
o = core.std.Levels(c, min_out=[0, 50], max_out=[255, 51]).get_frame(0)
check([px(o, p)[0] for p in range(3)] == [100, 50, 50], [px(o, p)[0] for p in range(3)])
o = core.std.Levels(c, min_in=[0, 100], max_in=[255, 200]).get_frame(0)
check([px(o, p)[0] for p in range(3)] == [100, 0, 0], [px(o, p)[0] for p in range(3)])
'''),
 dict(id='P08-mask-threshold', property='P08', needs='BinarizeMask on a float YUV clip with no threshold given and chroma mask values between 0 and 0.5', breaks='the default threshold of the chroma planes of a mask is 0 instead of 0.5',
  edits=[(GF, 'fval[plane] = uv ? 0.f : .5f;', 'fval[plane] = (plane > 0 && fi.colorFamily == cfYUV) ? 0.f : .5f;')],
  demo=G + '''
c = const(16, 4, vs.YUV444PS, [[.25, .75], [.25, .75], [.25, .75]])
o = core.std.BinarizeMask(c).get_frame(0)
for p in range(3): check(px(o, p)[:2] == [0, 1], px(o, p)[:2])
o = core.std.Binarize(const(16, 4, vs.YUV444PS, [[.25, .75], [-.25, .25], [-.1, .1]])).get_frame(0)
check(px(o, 0)[:2] == [0, 1] and px(o, 1)[:2] == [-.5, .5] and px(o, 2)[:2] == [-.5, .5], 'Binarize')
'''),
 dict(id='P08-levels-linear', property='P08', needs='Levels on half-float video with a gamma very close to but different from 1', breaks='the linear shortcut is taken although gamma is not 1',
  edits=[(GF, '''                if (std::abs(gamma - 1.0f) < std::numeric_limits<float>::epsilon()) {
                    float range_scale = range_out / (max_in - min_in);
                    for (int hl = 0; hl < h; hl++) {
                        for (int x = 0; x < w; x++)
                            dstp[x] = floatToHalf(''', '''                if (std::abs(gamma - 1.0f) < 0.015625f) {
                    float range_scale = range_out / (max_in - min_in);
                    for (int hl = 0; hl < h; hl++) {
                        for (int x = 0; x < w; x++)
                            dstp[x] = floatToHalf(''')],
  demo=G + '''
c = const(16, 4, vs.GRAYH, [[.01, .125, .5, 1.]])
for g in (1.0, 1.01, 0.99, 2.0):
    o = px(core.std.Levels(c, gamma=g).get_frame(0), 0)[:4]
    for a, b in zip((.01, .125, .5, 1.), o): check(abs(b - a ** (1 / g)) < a ** (1 / g) * .002, (g, a, b, a ** (1 / g)))
'''),
 dict(id='P08-lut2-clamp', property='P08', needs='Lut2 whose second clip has more bits per sample than the first and the scalar path', breaks='samples of the second clip are clamped to the range of the first',
  edits=[(L, 'U maxvaly = static_cast<U>((static_cast<int64_t>(1) << vsapi->getVideoFrameFormat(srcy)->bitsPerSample) - 1);', 'U maxvaly = static_cast<U>((static_cast<int64_t>(1) << (d->use_gather ? vsapi->getVideoFrameFormat(srcy)->bitsPerSample : shift)) - 1);')],
  demo=G + '''
a = const(16, 4, vs.GRAY8, [[1, 2, 3, 255]]); b = const(16, 4, vs.GRAY10, [[0, 255, 256, 1023]])
lut = [(x ^ y) & 255 for y in range(1024) for x in range(256)]
o = px(core.std.Lut2(a, b, lut=lut, bits=8).get_frame(0), 0)[:4]
check(o == [1, 253, 3, 0], o)
'''),
]
