F = 'src/core/simplefilters.cpp'; T = 'src/core/kernel/transpose.h'
H = '''
def grad(w, h, fmt, n=1):
    c = core.std.BlankClip(width=w, height=h, format=fmt, length=n)
    def f(n, f):
        f = f.copy(); i = 0
        for p in range(f.format.num_planes):
            a = f[p]
            for y in range(a.shape[0]):
                for x in range(a.shape[1]): a[y, x] = (i * 7919 + (i >> 8) * 31 + p) % 251; i += 1
        return f
    return c.std.ModifyFrame(c, f)
def rows(f, p): return [list(f[p][y, x] for x in range(f[p].shape[1])) for y in range(f[p].shape[0])]
'''
SEEDS = [
 dict(id='P03-transpose-tail', property='P03', needs='16-bit transpose on the SSE2 path, height a multiple of 8 plus rest, width not a multiple of 8, at least one full block row after the cache line part', breaks='columns right of the last full block are not transposed in the partial cache line rows',
  edits=[(T, '''            transpose_block_word(ADD_OFFSET(src_p, i * src_stride) + j, src_stride, ADD_OFFSET(dst_p, j * dst_stride) + i, dst_stride);
        }
        for (j = width_floor; j < width; ++j) {
            for (ii = i; ii < i + BLOCK_HEIGHT_WORD; ++ii) {''', '''            transpose_block_word(ADD_OFFSET(src_p, i * src_stride) + j, src_stride, ADD_OFFSET(dst_p, j * dst_stride) + i, dst_stride);
        }
        for (j = width_floor; j < width; ++j) {
            for (ii = i; ii < height_floor + BLOCK_HEIGHT_WORD; ++ii) {''')],
  demo=H + '''
for w, h in ((9, 24), (11, 56), (21, 25)):
    c = grad(w, h, vs.GRAY16); a = rows(c.get_frame(0), 0); b = rows(c.std.Transpose().get_frame(0), 0)
    check(b == [list(r) for r in zip(*a)], (w, h))
'''),
 dict(id='P03-border-chroma', property='P03', needs='AddBorders on a clip with different horizontal and vertical subsampling (4:2:2, 4:4:0, 4:1:1) with a bottom border', breaks='the bottom border of chroma planes of horizontally subsampled clips is left unwritten in part',
  edits=[(F, '''            int padb = d->bottom >> (plane ? fi->subSamplingH : 0);''', '''            int padb = d->bottom >> (plane ? std::max(fi->subSamplingH, fi->subSamplingW) : 0);''')],
  demo=H + '''
import gc
for k in range(20):
    junk = [core.std.BlankClip(width=64, height=48, format=vs.YUV422P8, color=[200, 201, 202], length=1).get_frame(0) for _ in range(8)]
    del junk
    c = grad(64, 16, vs.YUV422P8).std.AddBorders(bottom=32, color=[10, 20, 30]).get_frame(0)
    for p, v in enumerate((10, 20, 30)):
        r = rows(c, p)
        check(all(x == v for q in r[16:] for x in q), (p, k))
'''),
 dict(id='P03-crop-field', property='P03', needs='Crop of an odd number of top lines of a frame whose _FieldBased is top field first', breaks='field order property is only swapped for bottom field first frames when the remaining height is odd',
  edits=[(F, '''            if (fb == VSC_FIELD_BOTTOM || fb == VSC_FIELD_TOP)
                vsapi->mapSetInt(props, "_FieldBased", (fb == VSC_FIELD_BOTTOM) ? VSC_FIELD_TOP : VSC_FIELD_BOTTOM, maReplace);
        }

        return dst;
    }

    return nullptr;
}

static void VS_CC cropAbsCreate''', '''            if (fb == VSC_FIELD_BOTTOM || (fb == VSC_FIELD_TOP && !(d->height & 1)))
                vsapi->mapSetInt(props, "_FieldBased", (fb == VSC_FIELD_BOTTOM) ? VSC_FIELD_TOP : VSC_FIELD_BOTTOM, maReplace);
        }

        return dst;
    }

    return nullptr;
}

static void VS_CC cropAbsCreate''')],
  demo=H + '''
for fb in (1, 2):
    for top, bot in ((1, 0), (1, 1), (3, 2), (3, 1), (2, 0), (2, 1)):
        c = grad(16, 16, vs.GRAY8).std.SetFrameProp(prop='_FieldBased', intval=fb).std.Crop(top=top, bottom=bot).get_frame(0)
        check(c.props['_FieldBased'] == (3 - fb if top & 1 else fb), (fb, top, bot))
'''),
]
