F = 'src/core/reorderfilters.cpp'
BLANK = '''
def idc(n, c=0):
    b = core.std.BlankClip(width=16, height=16, format=vs.GRAY16, length=n, color=0)
    return b.std.FrameEval(lambda n, b=b: b.std.BlankClip(length=1, color=n + 1000 * c)) if False else core.std.Splice([core.std.BlankClip(width=16, height=16, format=vs.GRAY16, length=1, color=i + 1000 * c) for i in range(n)])
def ids(clip): return [clip.get_frame(i)[0][0, 0] for i in range(clip.num_frames)]
'''
SEEDS = [
 dict(id='P01-freezelast', property='P01', needs='FreezeFrames with at least two ranges given in descending order where one replaces frames with a frame inside another range', breaks='a replacement that lies inside a later range is replaced again',
  edits=[(F, '''                    n = iter.replacement;
                    break;''', '''                    n = iter.replacement;
                    if (iter.first != iter.last)
                        break;''')],
  demo=BLANK + '''
c = idc(12)
for f, l, r in (([3], [3], [8]), ([3, 7], [3, 9], [8, 1]), ([7, 3], [9, 3], [1, 8]), ([1, 5], [2, 6], [6, 0])):
    e = list(range(12))
    for a, b, v in zip(f, l, r):
        for k in range(a, b + 1): e[k] = v
    check(ids(c.std.FreezeFrames(first=f, last=l, replacement=r)) == e, (f, l, r))
'''),
 dict(id='P01-seltail', property='P01', needs='SelectEvery whose offsets are not ascending, on a clip whose length is not a multiple of the cycle, reading the last partial cycle', breaks='frames of the last incomplete cycle come in ascending instead of the given order',
  edits=[(F, '''        if (numFrames > INT_MAX)
            RETERROR("SelectEvery''', '''        if (d->tailOffsets.size() > 2)
            std::sort(d->tailOffsets.begin(), d->tailOffsets.end());
        if (numFrames > INT_MAX)
            RETERROR("SelectEvery''')],
  demo=BLANK + '''
for N in (9, 10, 11, 14):
    c = idc(N)
    for cyc, offs in ((5, [3, 1, 0]), (4, [2, 1, 0]), (5, [0, 1, 2]), (7, [3, 3, 1, 0])):
        e = [b + o for b in range(0, N, cyc) for o in offs if b + o < N]
        check(ids(c.std.SelectEvery(cyc, offs)) == e, (N, cyc, offs))
'''),
 dict(id='P01-interdur', property='P01', needs='Interleave(extend or not) of clips of unequal length, frame past the end of the shorter clip, modify_duration off', breaks='frame requested past the end of a shorter clip comes from the wrong position',
  edits=[(F, '''        vspapi_placeholder''', '''''')], demo='') if False else
 dict(id='P01-trimlen', property='P01', needs='Trim with first and length covering the clip length exactly while first is not 0 is rejected, last beyond', breaks='Trim accepts first+length one frame past the end of the clip',
  edits=[(F, '''(lengthset && length > vi.numFrames - d->first))''', '''(lengthset && length - !!(d->first & 4) > vi.numFrames - d->first))''')],
  demo=BLANK + '''
c = idc(12)
for first in range(12):
    for length in range(1, 15):
        try: r = c.std.Trim(first=first, length=length); ok = True
        except vs.Error: ok = False
        check(ok == (first + length <= 12), (first, length))
'''),
]
