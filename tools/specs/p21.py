A = 'src/core/simplefilters.cpp'
SEEDS = [
 dict(id='P21-copy-hint', property='P21', needs='CopyFrameProps of a named data property with several elements of different kinds (text and bytes)', breaks='every element gets the kind of the first one',
  edits=[(A, 'vsapi->mapGetDataSize(srcprops, iter.c_str(), i, nullptr), vsapi->mapGetDataTypeHint(srcprops, iter.c_str(), i, nullptr), maAppend);', 'vsapi->mapGetDataSize(srcprops, iter.c_str(), i, nullptr), vsapi->mapGetDataTypeHint(srcprops, iter.c_str(), 0, nullptr), maAppend);')],
  demo='''
b = core.std.BlankClip(width=16, height=16, length=3); s = core.std.SetFrameProp(b, prop='mix', data=['text', b'\\xff\\x00\\xfe', 'more'])
w = s.get_frame(0).props['mix']; g = core.std.CopyFrameProps(b, s, props=['mix']).get_frame(1).props['mix']
check(g == w and [type(v) for v in g] == [type(v) for v in w], (g, w)); check(w[1] == b'\\xff\\x00\\xfe', w)
'''),
 dict(id='P21-glob-bar', property='P21', needs='a RemoveFrameProps pattern that contains a vertical bar', breaks='the bar is taken as an alternative, so properties that do not match the pattern are removed',
  edits=[(A, "case '[': case ']': case '{': case '}': case '|': case '\\\\':", "case '[': case ']': case '{': case '}': case '\\\\':")],
  demo='''
c = core.std.BlankClip(width=16, height=16, length=2, keep=True)
for k in ('a', 'b', 'ab', 'xb', 'ax', 'Prop'): c = core.std.SetFrameProp(c, prop=k, intval=1)
for p in ('a|b', 'a*|Prop', '|', 'Prop|?'):
    r = set(core.std.RemoveFrameProps(c, p).get_frame(0).props); check(r == set(c.get_frame(0).props), (p, r))
check('a' not in core.std.RemoveFrameProps(c, 'a').get_frame(0).props, 'plain')
'''),
 dict(id='P21-alpha-append', property='P21', needs='ClipToProp on a clip whose frames already carry a frame in that property', breaks='the new frame is added behind the old one instead of replacing it',
  edits=[(A, 'vsapi->mapSetFrame(vsapi->getFramePropertiesRW(dst), d->prop.c_str(), src2, maReplace);', 'vsapi->mapSetFrame(vsapi->getFramePropertiesRW(dst), d->prop.c_str(), src2, maAppend);')],
  demo='''
c = core.std.BlankClip(width=16, height=16, length=2); m = [core.std.BlankClip(width=16, height=16, format=vs.GRAY8, color=v, length=2) for v in (10, 20, 30)]
for v in m: c = core.std.ClipToProp(c, v)
g = core.std.PropToClip(c).get_frame(1); check(g[0][3, 3] == 30, g[0][3, 3])
check(core.std.PropToClip(core.std.ClipToProp(c, m[1], prop='other'), prop='other').get_frame(0)[0][0, 0] == 20, 'other')
'''),
 dict(id='P21-prop-height', property='P21', needs='PropToClip on frames whose stored frames have the same width and format but another height', breaks='a frame of another height than the clip is delivered instead of an error',
  edits=[(A, '!isSameVideoFormat(&d->vi.format, vsapi->getVideoFrameFormat(dst)) || d->vi.height != vsapi->getFrameHeight(dst, 0) || d->vi.width', '!isSameVideoFormat(&d->vi.format, vsapi->getVideoFrameFormat(dst)) || d->vi.width')],
  demo='''
b = core.std.BlankClip(width=16, height=16, length=2); p = [core.std.ClipToProp(b, core.std.BlankClip(width=w, height=h, format=f, length=2)) for w, h, f in ((16, 16, vs.GRAY8), (16, 12, vs.GRAY8), (12, 16, vs.GRAY8), (16, 16, vs.GRAY16))]
for q in p[1:]:
    c = core.std.Splice([p[0], q]); o = core.std.PropToClip(c); o.get_frame(1)
    try: f = o.get_frame(2)
    except vs.Error: continue
    check(False, ('delivered', f.width, f.height, f.format.name))
'''),
]
