// stand-in for the scripting library: output nodes come from the caller, everything else in the program is real
#include "VSScript4.h"
#include "VapourSynth4.h"
#include "wave.h"
#include <cstdio>
#include <cstdlib>
typedef void *(*node_t)(void *core, int index, int alpha);
typedef void (*vars_t)(const void *map);
typedef void (*done_t)(void);
static node_t node_cb; static vars_t vars_cb; static done_t done_cb; static int outputs[16]; static int noutputs; static char script[4096];
#include <cstring>
static int VS_CC ver() noexcept { return VSSCRIPT_API_VERSION; }
static const VSAPI *VS_CC api(int v) noexcept { return getVapourSynthAPI(v); }
static VSScript *VS_CC create(VSCore *c) noexcept { return reinterpret_cast<VSScript *>(c ? c : api(VAPOURSYNTH_API_VERSION)->createCore(0)); }
static VSCore *VS_CC core(VSScript *s) noexcept { return reinterpret_cast<VSCore *>(s); }
static int VS_CC evalb(VSScript *, const char *, const char *) noexcept { return 0; }
static int VS_CC evalf(VSScript *, const char *f) noexcept { strncpy(script, f, sizeof script - 1); return 0; }
static const char *VS_CC err(VSScript *) noexcept { return strcmp(script, "fail") ? nullptr : "failed"; }
static int VS_CC code(VSScript *) noexcept { return 7; }
static int VS_CC getv(VSScript *, const char *, VSMap *) noexcept { return 1; }
static int VS_CC setv(VSScript *, const VSMap *m) noexcept { vars_cb(m); return 0; }
static VSNode *VS_CC node(VSScript *s, int i) noexcept { return (VSNode *)node_cb(s, i, 0); }
static VSNode *VS_CC alpha(VSScript *s, int i) noexcept { return (VSNode *)node_cb(s, i, 1); }
static int VS_CC alt(VSScript *, int) noexcept { return 0; }
static void VS_CC fre(VSScript *s) noexcept { done_cb(); if (s) api(VAPOURSYNTH_API_VERSION)->freeCore(core(s)); }
static void VS_CC wd(VSScript *, int) noexcept {}
static int VS_CC avail(VSScript *, int n, int *d) noexcept { for (int i = 0; i < n && i < noutputs; i++) d[i] = outputs[i]; return noutputs; }
int vspipe_main(int, char **);
extern "C" {
static VSSCRIPTAPI table;
const VSSCRIPTAPI *VS_CC getVSScriptAPI(int) VS_NOEXCEPT {
    table.getAPIVersion = ver; table.getVSAPI = api; table.createScript = create; table.getCore = core; table.evaluateBuffer = evalb; table.evaluateFile = evalf;
    table.getError = err; table.getExitCode = code; table.getVariable = getv; table.setVariables = setv; table.getOutputNode = node; table.getOutputAlphaNode = alpha;
    table.getAltOutputMode = alt; table.freeScript = fre; table.evalSetWorkingDir = wd; table.getAvailableOutputNodes = avail;
    return &table;
}
const char *VS_CC getVSScriptAPILastError(void) VS_NOEXCEPT { return ""; }
__attribute__((visibility("default"))) int pipe_run(node_t n, vars_t v, done_t d, const int *o, int no, int argc, char **argv) {
    node_cb = n; vars_cb = v; done_cb = d; noutputs = no; script[0] = 0;
    for (int i = 0; i < no; i++) outputs[i] = o[i];

    return vspipe_main(argc, argv);
}
__attribute__((visibility("default"))) int wave_header(int kind, uint8_t *out, int flt, int bits, int rate, uint64_t mask, int64_t n) {
    if (kind == 0) return CreateWaveHeader(*reinterpret_cast<WaveHeader *>(out), flt, bits, rate, mask, n);
    return CreateWave64Header(*reinterpret_cast<Wave64Header *>(out), flt, bits, rate, mask, n);
}
__attribute__((visibility("default"))) void wave_pack(int kind, const uint8_t *const *src, uint8_t *dst, size_t len, size_t ch) {
    (kind == 16 ? PackChannels16to16le : kind == 24 ? PackChannels32to24le : PackChannels32to32le)(src, dst, len, ch);
}
}
