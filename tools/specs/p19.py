from runpy import run_path; import os
P = run_path(os.path.join(os.path.dirname(__file__), 'p14.py'))['PRE'].replace('#include "VapourSynth4.h"\\n', '#include <climits>\\n#include "VapourSynth4.h"\\n#include "VSHelper4.h"\\n')
H = 'include/VSHelper4.h'
SEEDS = [
 dict(id='P19-add-negative', property='P19', needs='adding two rationals with different denominators whose sum is negative', breaks='the sign of the sum is lost', 
  edits=[(H, '''    if (a < 0)
        a = -a;
    *num /= a;''', '''    if (a < 0 && *num >= 0)
        a = -a;
    *num /= a;''')],
  demo=P + r'''
run("""int64_t n, d; auto is = [&](int64_t x, int64_t y) { return n == x && d == y; };
n = 1; d = 2; vsh::addRational(&n, &d, 1, 3); CHECK(is(5, 6)); n = 6; d = 4; vsh::reduceRational(&n, &d); CHECK(is(3, 2));
n = -1; d = 2; vsh::addRational(&n, &d, 1, 3); CHECK(is(-1, 6)); n = -7; d = 3; vsh::addRational(&n, &d, -5, 2); CHECK(is(-29, 6)); n = -6; d = 4; vsh::reduceRational(&n, &d); CHECK(is(-3, 2)); n = -4; d = 2; vsh::muldivRational(&n, &d, 3, 5); CHECK(is(-6, 5)); n = -3; d = 9; vsh::reduceRational(&n, &d); CHECK(is(-1, 3));""")
'''),
 dict(id='P19-sat-low', property='P19', needs='converting an integer below the 32-bit range', breaks='values between -2^31-1 and the wrapping point are truncated instead of saturated',
  edits=[(H, 'else if (i < INT_MIN)\n        return INT_MIN;', 'else if (i < -INT64_C(0xFFFFFFFF))\n        return INT_MIN;')],
  demo=P + r'''
run("""CHECK(vsh::int64ToIntS(5) == 5); CHECK(vsh::int64ToIntS(1LL << 40) == INT_MAX); CHECK(vsh::int64ToIntS(-(1LL << 40)) == INT_MIN); CHECK(vsh::int64ToIntS(-2147483649LL) == INT_MIN); CHECK(vsh::int64ToIntS(-3000000000LL) == INT_MIN); CHECK(vsh::int64ToIntS(-4294967295LL) == INT_MIN);""")
'''),
 dict(id='P19-dims-height', property='P19', needs='a format subsampled more in one direction than in the other', breaks='the height is checked against the horizontal subsampling whenever there is vertical subsampling',
  edits=[(H, 'height % (1 << fi->subSamplingH))', 'height % (1 << (fi->subSamplingH ? fi->subSamplingW : 0)))')],
  demo=P + r'''
run("""VSVideoFormat f; a->queryVideoFormat(&f, cfYUV, stInteger, 8, 1, 1, c); CHECK(vsh::areValidDimensions(&f, 6, 6)); CHECK(!vsh::areValidDimensions(&f, 6, 5));
a->queryVideoFormat(&f, cfYUV, stInteger, 8, 0, 1, c); CHECK(!vsh::areValidDimensions(&f, 6, 5)); CHECK(vsh::areValidDimensions(&f, 5, 6)); a->queryVideoFormat(&f, cfYUV, stInteger, 8, 2, 1, c); CHECK(vsh::areValidDimensions(&f, 4, 6));""")
'''),
 dict(id='P19-audio-layout', property='P19', needs='comparing two audio formats with the same number of channels in different places', breaks='they count as the same format',
  edits=[(H, 'a1->sampleType == a2->sampleType && a1->channelLayout == a2->channelLayout;', 'a1->sampleType == a2->sampleType && a1->numChannels == a2->numChannels;')],
  demo=P + r'''
run("""VSAudioFormat f, g; a->queryAudioFormat(&f, stInteger, 16, 3, c); g = f; CHECK(vsh::isSameAudioFormat(&f, &g)); a->queryAudioFormat(&g, stInteger, 16, 12, c); CHECK(!vsh::isSameAudioFormat(&f, &g)); a->queryAudioFormat(&g, stInteger, 24, 3, c); CHECK(!vsh::isSameAudioFormat(&f, &g));""")
'''),
]
