A = 'src/core/averageframesfilter.cpp'
SEEDS = [
 dict(id='P10-neg-scale', property='P10', needs='weights whose sum is negative and no scale argument', breaks='the result is divided by the negative sum instead of 1',
  edits=[(A, 'if (scalei < 1)\n                d->scale = 1;', 'if (!scalei)\n                d->scale = 1;')],
  demo='''
c = [core.std.BlankClip(width=16, height=16, format=vs.GRAY8, color=v, length=2) for v in (10, 100, 50)]
def av(cl, w, **k): return core.std.AverageFrames(cl, weights=w, **k).get_frame(0)[0][3, 5]
check(av(c, [1, 1, 2]) == 52, av(c, [1, 1, 2])); check(av(c, [1, 1, -2]) == 10, 'zero sum')
check(av(c, [-2, 1, -1]) == 30, ('negative sum', av(c, [-2, 1, -1])))
'''),
 dict(id='P10-chroma-v', property='P10', needs='weights not summing to scale on a YUV clip, looking at V', breaks='the second chroma plane is not taken relative to its middle value',
  edits=[(A, 'bool chroma = (plane == 1 || plane == 2) && fi->colorFamily == cfYUV;', 'bool chroma = plane % 3 == 1 && fi->colorFamily == cfYUV;')],
  demo='''
for f, m in ((vs.YUV420P8, 128), (vs.YUV444P10, 512), (vs.YUV422P16, 32768)):
    c = core.std.BlankClip(width=16, height=16, format=f, color=[40, m + 20, m - 24], length=3)
    g = core.std.AverageFrames(c, weights=[1, 1, 1], scale=4).get_frame(1); v = [g[p][2, 3] for p in range(3)]
    check(v == [30, m + 15, m - 18], (f, v))
c = core.std.BlankClip(width=16, height=16, format=vs.RGB24, color=[40, 80, 120], length=3)
g = core.std.AverageFrames(c, weights=[1, 1, 1], scale=4).get_frame(1); v = [g[p][2, 3] for p in range(3)]; check(v == [30, 60, 90], v)
'''),
 dict(id='P10-float-scene', property='P10', needs='a float clip with a scene change after the window centre', breaks='the cut-off weights after the scene change are dropped, not added to the centre',
  edits=[(A, 'for (int i = toFrame + 1; i < static_cast<int>(fweights.size()); i++) {\n                    acc += fweights[i];\n                    fweights[i] = 0;', 'for (int i = static_cast<int>(fweights.size()) - 1; i > toFrame; i--) {\n                    acc = fweights[i];\n                    fweights[i] = 0;')],
  demo='''
def run(f, cut, n):
    b = [core.std.BlankClip(width=16, height=16, format=f, color=v, length=1) for v in (0.125, 0.25, 0.5, 0.75, 1.0)]
    for i in cut: b[i] = core.std.SetFrameProp(b[i], prop=cut[i], intval=1)
    return core.std.AverageFrames(core.std.Splice(b), weights=[1, 2, 3, 4, 5], scale=16, scenechange=1).get_frame(n)[0][4, 4]
for f in (vs.GRAYS, vs.GRAYH):
    v = run(f, {}, 2); check(v == (0.125 + 0.5 + 1.5 + 3 + 5) / 16, v)
    v = run(f, {3: '_SceneChangeNext'}, 2); check(v == (0.125 + 0.5 + 8 * 0.5 + 3) / 16, v)
    v = run(f, {2: '_SceneChangeNext'}, 2); check(v == (0.125 + 0.5 + 12 * 0.5) / 16, v)
'''),
 dict(id='P10-scene-order', property='P10', needs='two _SceneChangePrev frames before the window centre', breaks='the farther scene change ends the window, so frames of another scene are averaged in',
  edits=[(A, 'for (int i = static_cast<int>(weights.size()) / 2; i > 0; i--) {', 'for (int i = 1; i <= static_cast<int>(weights.size()) / 2; i++) {')],
  demo='''
def run(cut, n):
    b = [core.std.BlankClip(width=16, height=16, format=vs.GRAY8, color=v, length=1) for v in (0, 80, 160, 240, 32)]
    for i in cut: b[i] = core.std.SetFrameProp(b[i], prop='_SceneChangePrev', intval=1)
    return core.std.AverageFrames(core.std.Splice(b), weights=[1, 1, 4, 1, 1], scenechange=1).get_frame(n)[0][4, 4]
check(run([], 2) == (80 + 640 + 240 + 32) // 8, run([], 2)); check(run([2], 2) == (6 * 160 + 240 + 32) // 8, 'centre'); check(run([1], 2) == (80 + 5 * 160 + 240 + 32) // 8, 'one')
check(run([1, 2], 2) == (6 * 160 + 240 + 32) // 8, ('two', run([1, 2], 2)))
'''),
 dict(id='P10-round', property='P10', needs='an integer clip with fractional weights of .5 or more after the point', breaks='weights are truncated instead of rounded',
  edits=[(A, 'd->weights.push_back(static_cast<int>(r));', 'd->weights.push_back(static_cast<int>(w));')],
  demo='''
c = [core.std.BlankClip(width=16, height=16, format=vs.GRAY8, color=v, length=2) for v in (10, 100, 50)]
def av(cl, w, **k): return core.std.AverageFrames(cl, weights=w, **k).get_frame(0)[0][3, 5]
check(av(c, [1.2, 1.4, 2], scale=4) == 52, 'down'); check(av(c, [1.5, 1, 1], scale=5) == 34, ('up', av(c, [1.5, 1, 1], scale=5)))
'''),
 dict(id='P10-short', property='P10', needs='several clips of which a later one is the longest', breaks='the output has the length of the first clip',
  edits=[(A, 'd->vi.numFrames = std::max(d->vi.numFrames, vi->numFrames);\n            if (!isSameVideoInfo', 'if (vi->numFrames > d->vi.numFrames && i + 1 < d->nodes.size())\n                d->vi.numFrames = vi->numFrames;\n            if (!isSameVideoInfo')],
  demo='''
def mk(*l): return [core.std.BlankClip(width=16, height=16, format=vs.GRAY8, color=20 * i, length=n) for i, n in enumerate(l)]
def av(*l): return core.std.AverageFrames(mk(*l), weights=[1] * len(l))
check(av(3, 9, 5).num_frames == 9, 'middle'); check(av(3, 9, 5).get_frame(8)[0][0, 0] == 20, 'v')
check(av(3, 5, 9).num_frames == 9, ('last', av(3, 5, 9).num_frames))
'''),
]
