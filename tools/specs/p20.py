import os
W, VP, VJ = 'src/common/wave.cpp', 'src/vspipe/vspipe.cpp', 'src/vspipe/vsjson.cpp'
MAIN = r'''// the output program with a stand-in for the scripting library; main(): demo FILE [vspipe options]
#include "VSScript4.h"
#include "VapourSynth4.h"
#include "wave.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
struct Opt { int fmt, w, h, n, alpha, delay, alphadelay; } opt = {2, 5, 3, 12, 0, 0, 0};
struct Data { VSVideoFormat f; int alpha; };
static const VSFrame *VS_CC getf(int n, int ar, void *inst, void **, VSFrameContext *, VSCore *core, const VSAPI *api) {
    Data *d = (Data *)inst;
    int dl = d->alpha ? opt.alphadelay : opt.delay;
    if (dl && n % 5 == 0) usleep(dl * 1000);
    VSFrame *f = api->newVideoFrame(&d->f, opt.w, opt.h, nullptr, core);
    for (int p = 0; p < d->f.numPlanes; p++)
        for (int y = 0; y < api->getFrameHeight(f, p); y++)
            for (int x = 0; x < api->getFrameWidth(f, p) * d->f.bytesPerSample; x++)
                api->getWritePtr(f, p)[y * api->getStride(f, p) + x] = d->alpha ? 200 + n : n * 7 + p * 60 + y * 13 + x;
    VSMap *m = api->getFramePropertiesRW(f);
    api->mapSetInt(m, "_DurationNum", n % 3 == 1 ? 1001 : 1, maReplace); api->mapSetInt(m, "_DurationDen", n % 3 == 1 ? 24000 : 24, maReplace); api->mapSetInt(m, "n", n, maReplace);
    api->mapSetData(m, "text", "a\"b\\c\n\x01z", -1, dtUtf8, maReplace);
    return f;
}
static void VS_CC freef(void *d, VSCore *, const VSAPI *) { delete (Data *)d; }
static VSNode *mk(VSCore *c, const VSAPI *a, int alpha) {
    Data *d = new Data; d->alpha = alpha;
    a->queryVideoFormat(&d->f, alpha ? cfGray : opt.fmt, stInteger, 8, opt.fmt == cfYUV && !alpha, opt.fmt == cfYUV && !alpha, c);
    VSVideoInfo vi{}; vi.format = d->f; vi.width = opt.w; vi.height = opt.h; vi.numFrames = opt.n; vi.fpsNum = 24; vi.fpsDen = 1;
    return a->createVideoFilter2("src", &vi, getf, freef, fmParallel, nullptr, 0, d, c);
}
static int VS_CC ver() noexcept { return VSSCRIPT_API_VERSION; }
static const VSAPI *VS_CC api(int v) noexcept { return getVapourSynthAPI(v); }
static VSScript *VS_CC create(VSCore *c) noexcept { VSCore *k = c ? c : api(VAPOURSYNTH_API_VERSION)->createCore(0); api(VAPOURSYNTH_API_VERSION)->setThreadCount(8, k); return reinterpret_cast<VSScript *>(k); }
static VSCore *VS_CC core(VSScript *s) noexcept { return reinterpret_cast<VSCore *>(s); }
static int VS_CC evalb(VSScript *, const char *, const char *) noexcept { return 0; }
static int VS_CC evalf(VSScript *, const char *) noexcept { return 0; }
static const char *VS_CC err(VSScript *) noexcept { return nullptr; }
static int VS_CC code(VSScript *) noexcept { return 7; }
static int VS_CC getv(VSScript *, const char *, VSMap *) noexcept { return 1; }
static int VS_CC setv(VSScript *, const VSMap *) noexcept { return 0; }
static VSNode *VS_CC node(VSScript *s, int i) noexcept { return mk(core(s), api(VAPOURSYNTH_API_VERSION), 0); }
static VSNode *VS_CC alphan(VSScript *s, int i) noexcept { return opt.alpha ? mk(core(s), api(VAPOURSYNTH_API_VERSION), 1) : nullptr; }
static int VS_CC alt(VSScript *, int) noexcept { return 0; }
static void VS_CC fre(VSScript *s) noexcept { if (s) api(VAPOURSYNTH_API_VERSION)->freeCore(core(s)); }
static void VS_CC wd(VSScript *, int) noexcept {}
static int VS_CC avail(VSScript *, int n, int *d) noexcept { d[0] = 0; return 1; }
int vspipe_main(int, char **);
extern "C" const VSSCRIPTAPI *VS_CC getVSScriptAPI(int) VS_NOEXCEPT {
    static VSSCRIPTAPI t;
    t.getAPIVersion = ver; t.getVSAPI = api; t.createScript = create; t.getCore = core; t.evaluateBuffer = evalb; t.evaluateFile = evalf;
    t.getError = err; t.getExitCode = code; t.getVariable = getv; t.setVariables = setv; t.getOutputNode = node; t.getOutputAlphaNode = alphan;
    t.getAltOutputMode = alt; t.freeScript = fre; t.evalSetWorkingDir = wd; t.getAvailableOutputNodes = avail;
    return &t;
}
extern "C" const char *VS_CC getVSScriptAPILastError(void) VS_NOEXCEPT { return ""; }
int main(int argc, char **argv) {
    if (!strcmp(argv[1], "wave64")) {
        Wave64Header h; bool ok = CreateWave64Header(h, false, 16, 48000, 3, atoll(argv[2]));
        printf("%d %llu %llu\n", (int)ok, (unsigned long long)h.riffSize, (unsigned long long)h.dataSize); return 0;
    }
    if (!strcmp(argv[1], "pack24")) {
        int ch = atoi(argv[2]); static unsigned src[8][6]; const uint8_t *p[8]; static uint8_t dst[8 * 6 * 3];
        for (int c = 0; c < ch; c++) { p[c] = (const uint8_t *)src[c]; for (int i = 0; i < 6; i++) src[c][i] = 0x9abcde00u + (c << 16) + (i << 8); }
        PackChannels32to24le(p, dst, 6, ch);
        for (int i = 0; i < 6; i++) for (int c = 0; c < ch; c++) { unsigned v = (src[c][i] >> 8); for (int b = 0; b < 3; b++) if (dst[(i * ch + c) * 3 + b] != ((v >> (8 * b)) & 255)) { printf("bad sample\n"); return 1; } }
        printf("ok\n"); return 0;
    }
    for (int i = 0; i < 7; i++) ((int *)&opt)[i] = atoi(argv[1 + i]);
    return vspipe_main(argc - 7, argv + 7);
}
'''
PRE = r'''
import subprocess, tempfile, shutil, json
here = os.path.dirname(os.path.abspath(__file__)); d = tempfile.mkdtemp(); L = '/repo/_inst/site/vapoursynth'; exe = d + '/demo'
fl = ['g++', '-std=c++20', '-fno-char8_t', '-O1', '-w', '-pthread', '-I/repo/include', '-I/repo/src/vspipe', '-I/repo/src/common', '-DNOMINMAX', '-DVS_CURRENT_RELEASE=70', '-DVS_GRAPH_API', '-DVS_USE_LATEST_API', '-DVSSCRIPT_USE_LATEST_API', '-DVS_TARGET_OS_LINUX', '-DVS_TARGET_CPU_X86']
ob = []
for s in ('common/wave', 'vspipe/printgraph', 'vspipe/vsjson', 'vspipe/vspipe'):
    o = d + '/' + os.path.basename(s) + '.o'; ob.append(o)
    r = subprocess.run(fl + ['-Dmain=vspipe_main', '-c', f'/repo/src/{s}.cpp', '-o', o], capture_output=True, text=True); assert r.returncode == 0, r.stderr
r = subprocess.run(fl + [here + '/standin.cpp'] + ob + ['-o', exe, L + '/libvapoursynth.so', '-Wl,-rpath,' + L], capture_output=True, text=True); assert r.returncode == 0, r.stderr
_check = check
def check(c, m):
    if not c: shutil.rmtree(d, ignore_errors=True)
    _check(c, m)
def prog(*a): return subprocess.run([exe] + [str(x) for x in a], capture_output=True, text=True)
def pixels(f, w, h, n, alpha):
    out = b''
    for i in range(n):
        for p in ((1, 2, 0) if f == 2 else range(3 if f == 3 else 1)):
            sw, sh = (w // 2, h // 2) if f == 3 and p else (w, h)
            out += bytes((i * 7 + p * 60 + y * 13 + x) & 255 for y in range(sh) for x in range(sw))
        if alpha: out += bytes([(200 + i) & 255]) * (w * h)
    return out
def pipe(opt, *args):
    r = prog(*opt, 'script.vpy', d + '/out', *args); return r.returncode, open(d + '/out', 'rb').read()
'''
END = "\nshutil.rmtree(d, ignore_errors=True)\n"
SEEDS = [
 dict(id='P20-w64-size', property='P20', needs='a Wave64 header for 2^32 samples or more', breaks='the sizes in the header are those of the number of samples modulo 2^32', files={'standin.cpp': MAIN},
  edits=[(W, '''bool CreateWave64Header(Wave64Header &header, bool IsFloat, int BitsPerSample, int SampleRate, uint64_t ChannelMask, int64_t NumSamples) {
    header = {};
    std::bitset<64> tmp(ChannelMask);
    size_t NumChannels = tmp.count();
    size_t bytesPerOutputSample = (BitsPerSample + 7) / 8;
    uint64_t dataSize = NumChannels * static_cast<uint64_t>(bytesPerOutputSample) * NumSamples;''', '''bool CreateWave64Header(Wave64Header &header, bool IsFloat, int BitsPerSample, int SampleRate, uint64_t ChannelMask, int64_t NumSamples) {
    header = {};
    std::bitset<64> tmp(ChannelMask);
    size_t NumChannels = tmp.count();
    size_t bytesPerOutputSample = (BitsPerSample + 7) / 8;
    uint64_t dataSize = NumChannels * static_cast<uint64_t>(bytesPerOutputSample) * static_cast<uint32_t>(NumSamples);''')],
  demo=PRE + r'''
for n in (1, 100000, 2 ** 31, 2 ** 32 + 7, 2 ** 40):
    o = prog('wave64', n).stdout.split(); check(o == ['1', str(128 + 4 * n), str(24 + 4 * n)], f'{n}: {o}')
''' + END),
 dict(id='P20-json-comma', property='P20', needs='JSON output with several frames in flight where the last one finishes before an earlier one', breaks='the separators follow the completion order, so one is missing and the file cannot be read', files={'standin.cpp': MAIN},
  edits=[(VP, '(data->totalFrames - 1 != data->outputFrames) ? "," : "")', '(data->totalFrames != data->completedFrames) ? "," : "")')],
  demo=PRE + r'''
for opt, extra in (((1, 5, 3, 12, 0, 0, 0), ('-r', 1)), ((1, 5, 3, 11, 0, 150, 0), ('-r', 8)), ((2, 5, 3, 7, 0, 150, 0), ('-r', 7))):
    rc, o = pipe(opt, '-j', d + '/j', *extra); check(rc == 0, 'exit code'); t = open(d + '/j').read()
    try: J = json.loads(t)
    except ValueError as e: check(False, f'JSON: {e}')
    check([x['n'] for x in J] == list(range(opt[3])) and J[0]['text'] == 'a"b\\c\n\x01z', 'JSON content')
    check(o == pixels(*opt[:5]), 'pixels')
''' + END),
 dict(id='P20-alpha-early', property='P20', needs='a clip with alpha where the alpha frame is ready later than the frame itself', breaks='the frame is written without its alpha', files={'standin.cpp': MAIN},
  edits=[(VP, 'while (data->reorderMap.count(data->outputFrames) && isCompletedFrame(data->reorderMap[data->outputFrames], !!data->alphaNode)) {', 'while (data->reorderMap.count(data->outputFrames) && isCompletedFrame(data->reorderMap[data->outputFrames], data->alphaNode && data->requestedFrames < data->totalFrames)) {')],
  demo=PRE + r'''
for opt in ((2, 5, 3, 12, 1, 0, 0), (3, 6, 4, 11, 1, 60, 0), (1, 64, 3, 11, 1, 0, 100)):
    rc, o = pipe(opt, '-r', 6); check(rc == 0, 'exit code'); check(o == pixels(*opt[:5]), f'pixels {len(o)}')
''' + END),
 dict(id='P20-timecode-mix', property='P20', needs='timecodes for a clip whose durations have different denominators', breaks='durations that share the numerator are counted as the first of them', files={'standin.cpp': MAIN},
  edits=[(VP, '++data->currentTimecode[std::make_pair(duration_num, duration_den)];', '''auto iter = data->currentTimecode.lower_bound(std::make_pair(duration_num, static_cast<int64_t>(duration_den - duration_den % 10)));
                            if (iter != data->currentTimecode.end() && iter->first.first == duration_num)
                                ++iter->second;
                            else
                                data->currentTimecode[std::make_pair(duration_num, duration_den)] = 1;''')],
  demo=PRE + r'''
rc, o = pipe((1, 5, 3, 12, 0, 0, 0), '-t', d + '/t'); check(rc == 0, 'exit code'); t = open(d + '/t').read().split('\n')
''' + END),
 dict(id='P20-y4m-frames', property='P20', needs='y4m output of a part of a clip', breaks='XLENGTH is the end of the range instead of the number of frames', files={'standin.cpp': MAIN},
  edits=[], demo=''),
]
SEEDS = SEEDS[:3]
SEEDS.append(dict(id='P20-json-quote', property='P20', needs='a property with a control character in the second half of its range (0x10 to 0x1f)', breaks='the upper digit of its escape is lost', files={'standin.cpp': MAIN.replace('\\x01z', '\\x1fz')},
  edits=[(VJ, 'result += hex[(uc >> 4) & 0xF];', "result += '0';")],
  demo=PRE + r'''
rc, o = pipe((1, 5, 3, 3, 0, 0, 0), '-j', d + '/j'); check(rc == 0, 'exit code'); J = json.loads(open(d + '/j').read()); check(J[1]['text'] == 'a"b\\c\n\x1fz', J[1]['text'])
''' + END))
