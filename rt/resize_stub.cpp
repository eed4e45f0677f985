// Takes the place of src/core/vsresize.cpp, which needs a zimg newer than the one in apt.
// It registers the resize namespace with no functions in it.
#include "VapourSynth4.h"
#include "VSConstants4.h"

void resizeInitialize(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    vspapi->configPlugin("com.vapoursynth.resize", "resize", "left out of this build", 1, VAPOURSYNTH_API_VERSION, 0, plugin);
}
