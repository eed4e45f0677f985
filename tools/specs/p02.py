A = 'src/core/audiofilters.cpp'
G = '''
def samp(c):
    out = [[] for _ in range(c.num_channels)]
    for n in range(c.num_frames):
        f = c.get_frame(n)
        for k in range(c.num_channels): out[k] += list(f[k])
    return out
'''
SEEDS = [
 dict(id='P02-round-tie', property='P02', needs='an integer clip whose scaled samples fall exactly half way between two values', breaks='ties are rounded to the even value instead of away from zero',
  edits=[(A, 'double rounded = std::round(value / range.step);', 'double rounded = std::nearbyint(value / range.step);')],
  demo=G + '''
c = core.std.BlankAudio(length=5000, bits=24, channels=[0], waveform='sine', frequency=123.0, amplitude=0.01)
s = samp(c)[0]; o = samp(core.std.AudioGain(c, gain=0.5))[0]
for a, b in zip(s, o):
    a, b = (q - 2 ** 32 if q >= 2 ** 31 else q for q in (a, b)); v = a // 256; w = (abs(v) + 1) // 2 * (1 if v > 0 else -1); check(b == w * 256, (a, b, w))
'''),
 dict(id='P02-loop-far', property='P02', needs='a frame of an endless AudioLoop more than 2^31 samples into the clip', breaks='the position in the source is computed in 32 bits and wraps around',
  edits=[(A, '    int64_t reqStart = n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES);\n    reqStart = reqStart % d->srcSamples;', '    int64_t reqStart = static_cast<uint32_t>(n) * static_cast<uint32_t>(VS_AUDIO_FRAME_SAMPLES);\n    reqStart = reqStart % d->srcSamples;')],
  demo=G + '''
c = core.std.BlankAudio(length=5000, bits=16, channels=[0], waveform='slope', frequency=9.0); s = samp(c)[0]; l = core.std.AudioLoop(c)
for n in (0, 1, 5, 699049, 1398100, 1398102, 2000000000):
    f = list(l.get_frame(n)[0]); check(f == [s[(n * 3072 + i) % 5000] for i in range(3072)], n)
'''),
 dict(id='P02-shuffle-pad', property='P02', needs='ShuffleChannels of 32-bit clips of different lengths, a shorter one ending inside a frame', breaks='the zero padding of the shorter channel starts at the wrong byte and wipes part of its samples',
  edits=[(A, 'memset(vsapi->getWritePtr(dst, idx) + copyLength * d->ai.format.bytesPerSample, 0, zeroLength * d->ai.format.bytesPerSample);', 'memset(vsapi->getWritePtr(dst, idx) + copyLength * sizeof(int16_t), 0, (dstLength - copyLength) * d->ai.format.bytesPerSample);')],
  demo=G + '''
a = core.std.BlankAudio(length=9000, sampletype=1, bits=32, channels=[0], waveform='square'); b = core.std.BlankAudio(length=4000, sampletype=1, bits=32, channels=[0], waveform='square')
o = samp(core.std.ShuffleChannels([a, b], [0, 0], [0, 1])); check(o[0] == samp(a)[0], 'long'); check(o[1] == samp(b)[0] + [0.0] * 5000, 'short')
'''),
 dict(id='P02-trim-request', property='P02', needs='AudioTrim from a sample inside a frame with a last output frame that ends exactly one sample into the second source frame', breaks='that sample is left out of the copy, the frame ends with an uninitialised sample',
  edits=[(A, '            if (length > numSrc1Samples) {\n                const VSFrame *src2', '            if (length > numSrc1Samples + 1) {\n                const VSFrame *src2')],
  demo=G + '''
import itertools
c = core.std.BlankAudio(length=20000, bits=16, channels=[0], waveform='slope', frequency=2.2); s = samp(c)[0]
for first, n in itertools.product((1, 100, 3071, 3072, 4000, 6000), (1, 2, 73, 2073, 3072, 3073, 3145, 5145)):
    core.std.BlankAudio(length=40000, bits=16, waveform='square').get_frame(0)
    k = 3072 - first % 3072
    for L in (n, k, k + 1, k + 2, 3072 + k + 1):
        check(samp(core.std.AudioTrim(c, first=first, length=L))[0] == s[first:first + L], (first, L))
'''),
]
