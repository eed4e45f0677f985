import os
V = 'src/core/vscore.cpp'
PRE = r'''
import subprocess, tempfile
def run(body):
    d = tempfile.mkdtemp(); src = os.path.join(d, 'd.cpp'); exe = os.path.join(d, 'd')
    open(src, 'w').write('#include <cstdio>\n#include <cstring>\n#include <cstdlib>\n#include <initializer_list>\n#include "VapourSynth4.h"\n#define CHECK(c) if (!(c)) { puts("FAILED: " #c); return 1; }\n'
        'static const VSFrame *VS_CC gf(int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *) { return nullptr; }\n'
        'int main() { const VSAPI *a = getVapourSynthAPI(VAPOURSYNTH_API_VERSION); VSCore *c = a->createCore(0);\n' + body + '\n fflush(stdout); _Exit(0); }\n')
    L = '/repo/_inst/site/vapoursynth'
    r = subprocess.run(['g++', '-std=c++17', '-I/repo/include', src, '-o', exe, L + '/libvapoursynth.so', '-Wl,-rpath,' + L], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    r = subprocess.run([exe], capture_output=True, text=True)
    subprocess.run(['rm', '-rf', d]); check(r.returncode == 0, r.stdout)
'''
SEEDS = [
 dict(id='P14-ssw-name', property='P14', needs='a YUV format with a subsampling that has no short name and differs between the directions', breaks='the horizontal and vertical subsampling are swapped in the name',
  edits=[(V, 'snprintf(buffer, 32, "YUVssw%dssh%dP%s", format.subSamplingW, format.subSamplingH, suffix);', 'snprintf(buffer, 32, "YUVssw%dssh%dP%s", format.subSamplingH, format.subSamplingW, suffix);')],
  demo='''
for w, h in ((3, 3), (3, 1), (0, 2), (4, 0)):
    f = core.query_video_format(vs.YUV, vs.INTEGER, 10, w, h)
    check(f.name == f'YUVssw{w}ssh{h}P10', f.name)
'''),
 dict(id='P14-layout-32', property='P14', needs='an audio channel layout with channels above bit 31', breaks='those channels are not counted, neither when the format is queried nor when it is checked',
  edits=[(V, 'std::bitset<sizeof(channelLayout) * 8> bits{ channelLayout };', 'std::bitset<32> bits{ channelLayout };'), (V, 'std::bitset<sizeof(format.channelLayout) * 8> bits{ format.channelLayout };', 'std::bitset<32> bits{ format.channelLayout };')],
  demo=PRE + r'''
run("""VSAudioFormat f; CHECK(a->queryAudioFormat(&f, stInteger, 16, 3, c)); CHECK(f.numChannels == 2);
CHECK(a->queryAudioFormat(&f, stInteger, 24, (1ull << 40) | (1ull << 33) | 1, c)); CHECK(f.numChannels == 3 && f.bytesPerSample == 4);
VSAudioInfo ai{}; ai.format = f; ai.sampleRate = 44100; ai.numSamples = 5000; CHECK(a->createAudioFilter2("x", &ai, gf, nullptr, fmParallel, nullptr, 0, nullptr, c));""")
'''),
 dict(id='P14-unreduced-fps', property='P14', needs='a filter created with a rate whose denominator alone changes when it is reduced (0/5)', breaks='the unreduced rate is accepted',
  edits=[(V, 'if (num != vi.fpsNum || den != vi.fpsDen)', 'if (num != vi.fpsNum && den != vi.fpsDen)')],
  demo=PRE + r'''
run("""VSVideoInfo vi{}; CHECK(a->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, c)); vi.width = vi.height = 16; vi.numFrames = 3;
auto mk = [&](int64_t n, int64_t d) { vi.fpsNum = n; vi.fpsDen = d; return a->createVideoFilter2("x", &vi, gf, nullptr, fmParallel, nullptr, 0, nullptr, c) != nullptr; };
CHECK(mk(24, 1)); CHECK(mk(0, 1)); CHECK(mk(0, 0)); CHECK(!mk(48, 2)); CHECK(!mk(0, 5)); CHECK(!mk(-1, 1)); CHECK(mk(30000, 1001));""")
'''),
 dict(id='P14-id-bits', property='P14', needs='the ID of a YUV format with horizontal subsampling 4 (1/16)', breaks='the subsampling field is read with two bits, another format is returned',
  edits=[(V, 'return queryVideoFormat(f, static_cast<VSColorFamily>((id >> 28) & 0xF), static_cast<VSSampleType>((id >> 24) & 0xF), (id >> 16) & 0xFF, (id >> 8) & 0xFF,', 'return queryVideoFormat(f, static_cast<VSColorFamily>((id >> 28) & 0xF), static_cast<VSSampleType>((id >> 24) & 0xF), (id >> 16) & 0xFF, (id >> 8) & 0x3,')],
  demo=PRE + r'''
run("""for (int cf : { (int)cfGray, (int)cfRGB, (int)cfYUV }) for (int st = 0; st < 2; st++) for (int b = 8; b <= 32; b++) for (int w = 0; w < 5; w++) {
 VSVideoFormat f, g; if (!a->queryVideoFormat(&f, cf, st, b, w, 0, c)) continue;
 uint32_t id = a->queryVideoFormatID(cf, st, b, w, 0, c); CHECK(id); memset(&g, 5, sizeof g);
 CHECK(a->getVideoFormatByID(&g, id, c)); CHECK(!memcmp(&f, &g, sizeof f)); }""")
'''),
]
