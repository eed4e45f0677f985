M = 'src/core/mergefilters.cpp'; K = 'src/core/kernel/'
from runpy import run_path; import os
G = '''
def const(w, h, fmt, vals):
    c = core.std.BlankClip(width=w, height=h, format=fmt, length=1)
    def f(n, f):
        f = f.copy()
        for p in range(f.format.num_planes):
            a = f[p]; v = vals[p]
            for y in range(a.shape[0]):
                for x in range(a.shape[1]): a[y, x] = v[(y * a.shape[1] + x) % len(v)]
        return f
    return c.std.ModifyFrame(c, f)
def px(f, p): return [f[p][y, x] for y in range(f[p].shape[0]) for x in range(f[p].shape[1])]
'''
SEEDS = [
 dict(id='P05-div12', property='P05', needs='12-bit MaskedMerge or PreMultiply with particular value triples (exact multiples of 4095 plus the rounding term)', breaks='the reciprocal used to divide by 4095 is one too small, so exact quotients come out one too low',
  edits=[(K + 'merge.h', '0x80100201, 0x80080081,', '0x80100201, 0x80080080,')],
  demo=G + '''
r = random.Random(1); a = [0, 4095] + [r.randrange(4096) for _ in range(4094)]; b = [4095, 0] + [r.randrange(4096) for _ in range(4094)]; m = [4095, 4095] + [r.randrange(4096) for _ in range(4094)]
for i in range(0, 4096, 2): a[i], b[i], m[i] = 1, 0, 2047
c = [const(64, 64, vs.GRAY12, [v]) for v in (a, b, m)]
o = px(core.std.MaskedMerge(c[0], c[1], c[2]).get_frame(0), 0)
for i in range(4096): check(o[i] == ((4095 - m[i]) * a[i] + m[i] * b[i] + 2047) // 4095, (i, a[i], b[i], m[i], o[i]))
'''),
 dict(id='P05-weight2', property='P05', needs='Merge of a three-plane clip with exactly two weights, the second of which is 0 or 1', breaks='when the second weight selects one clip unchanged the third plane uses the first weight instead of the second',
  edits=[(M, '''    if (nweight == 2) {
        d->fweight[2] = d->fweight[1];''', '''    if (nweight == 2) {
        d->fweight[2] = (d->fweight[1] > 0 && d->fweight[1] < 1) ? d->fweight[1] : d->fweight[0];''')],
  demo=G + '''
a = const(16, 4, vs.YUV444P8, [[10], [20], [30]]); b = const(16, 4, vs.YUV444P8, [[110], [120], [130]])
for w, e in (([0.5, 0.25], (60, 45, 55)), ([0.5, 1], (60, 120, 130)), ([0.25, 0], (35, 20, 30)), ([1, 0], (110, 20, 30))):
    o = core.std.Merge(a, b, weight=w).get_frame(0)
    check(tuple(px(o, p)[0] for p in range(3)) == e, (w, e))
'''),
 dict(id='P05-premul-neg', property='P05', needs='8-bit PreMultiply (or premultiplied MaskedMerge) of chroma values below 128, or luma below 16 in limited range, where the product does not divide evenly', breaks='values below the zero level are rounded without the half term',
  edits=[(K + 'merge.cpp', '''    tmp = (tmp * a + UINT8_MAX / 2) / 255;''', '''    tmp = (tmp * a + (sign ? UINT8_MAX / 2 - (tmp & 1) : UINT8_MAX / 2)) / 255;''')],
  demo=G + '''
v = list(range(256)) * 256; al = [i // 256 for i in range(65536)]
c = const(256, 256, vs.YUV444P8, [v, v, v]); m = const(256, 256, vs.GRAY8, [al])
for lv in ('none', 'sse2', 'avx2'):
    core.std.SetMaxCPU(lv); o = core.std.PreMultiply(c, m).get_frame(0)
    for p in range(3):
        z = 128 if p else 16; r = px(o, p)
        for i in range(65536):
            d = v[i] - z; w = z + (1 if d >= 0 else -1) * ((abs(d) * al[i] + 127) // 255)
            check(r[i] == w, (p, v[i], al[i], r[i], w))
'''),
 dict(id='P05-fulldiff16', property='P05', needs='MergeFullDiff on 16-bit input whose difference clip holds a value with a set top bit and whose sum exceeds the maximum', breaks='sums above the maximum wrap instead of clamping for a narrow band of values just over the limit',
  edits=[]  , demo=''),
]
SEEDS = [s for s in SEEDS if s['edits']]
