F = 'src/core/simplefilters.cpp'
from runpy import run_path; import os
H = run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p03.py'))['H']
SEEDS = [
 dict(id='P04-stackchroma', property='P04', needs='StackHorizontal of three or more clips of different widths', breaks='later clips are placed at the offset of the clip before them when its width equals the first',
  edits=[(F, '''                        rowsize,
                        vsapi->getFrameHeight(src, plane));
                    dstp += rowsize;''', '''                        rowsize,
                        vsapi->getFrameHeight(src, plane));
                    if (iter != d->nodes.back() || d->nodes.size() == 2)
                        dstp += vsapi->getFrameWidth(src, 0) * d->vi.format.bytesPerSample >> (plane && d->nodes.size() > 2 ? std::max(d->vi.format.subSamplingW, d->vi.format.subSamplingH) : plane ? d->vi.format.subSamplingW : 0);''')],
  demo=H + '''
for fmt in (vs.YUV420P8, vs.YUV422P8, vs.YUV440P8, vs.YUV444P8):
    for ws in ((16, 16), (16, 24, 8), (8, 8, 8, 8)):
        cs = [grad(w, 8, fmt) for w in ws]; o = core.std.StackHorizontal(cs).get_frame(0)
        for p in range(3):
            want = [sum((rows(c.get_frame(0), p)[y] for c in cs), []) for y in range(o[p].shape[0])]
            check(rows(o, p) == want, (fmt, ws, p))
'''),
 dict(id='P04-sep-duration', property='P04', needs='SeparateFields on frames with _DurationNum/_DurationDen when modify_duration is on and the denominator is even', breaks='durations with an even denominator are not halved',
  edits=[(F, '''            if (!errNum && !errDen) {
                muldivRational(&durationNum, &durationDen, 1, 2); // Divide duration by 2''', '''            if (!errNum && !errDen && durationNum < durationDen) {
                muldivRational(&durationNum, &durationDen, 1, 2); // Divide duration by 2''')],
  demo=H + '''
from fractions import Fraction
for a, b in ((1, 24), (1001, 30000), (1, 1), (5, 2), (24, 24), (7, 3)):
    c = grad(16, 16, vs.GRAY8).std.SetFrameProps(_DurationNum=a, _DurationDen=b).std.SeparateFields(tff=1).get_frame(1)
    check(Fraction(c.props['_DurationNum'], c.props['_DurationDen']) == Fraction(a, 2 * b), (a, b))
'''),
 dict(id='P04-weave-mixed', property='P04', needs='DoubleWeave with the tff argument on an odd frame whose own field property is known but whose successor lacks one', breaks='the argument no longer decides the field order when only one of the two fields carries the property',
  edits=[(F, '''            int par = (n & 1) ^ d->tff;
            if (par) {''', '''            int par = (n & 1) ^ d->tff;
            if (src1_field == 1 && src2_field == -1)
                par = 1;
            if (par) {''')],
  demo=H + '''
c = grad(16, 8, vs.GRAY8, 3)
c = core.std.Splice([c[0], c[1].std.SetFrameProp(prop='_Field', intval=1).std.FlipVertical(), c[2]])
for tff in (0, 1):
    for n in (0, 1):
        o = rows(c.std.DoubleWeave(tff=tff).get_frame(n), 0); a, b = rows(c.get_frame(n), 0), rows(c.get_frame(n + 1), 0)
        t, u = (a, b) if (n & 1) ^ tff else (b, a)
        check(o[0::2] == t and o[1::2] == u, (tff, n))
'''),
 dict(id='P04-shuffle-len', property='P04', needs='ShufflePlanes of three clips where the third is longer than the others', breaks='output is as long as the longest of the first two clips only',
  edits=[(F, '''            if (d->vi.numFrames < pvi->numFrames)
                d->vi.numFrames = pvi->numFrames;

            // simple''', '''            if (d->vi.numFrames < pvi->numFrames && pvi->numFrames >= vsapi->getVideoInfo(d->nodes[1])->numFrames && (i == 1 || nclips < 3 || vsapi->getVideoInfo(d->nodes[0])->numFrames <= vsapi->getVideoInfo(d->nodes[1])->numFrames))
                d->vi.numFrames = pvi->numFrames;

            // simple''')],
  demo=H + '''
for l in ((1, 2, 3), (3, 2, 5), (2, 1, 4), (5, 1, 1), (1, 5, 1)):
    o = core.std.ShufflePlanes([grad(8, 8, vs.GRAY8, n) for n in l], planes=[0, 0, 0], colorfamily=vs.YUV)
    check(o.num_frames == max(l), l)
'''),
]
