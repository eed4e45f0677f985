TECH = 'contract-based deductive verification: verification conditions generated from the compiled IR of the real sources, discharged by z3/cvc5; counterexamples replayed on the real build'
NOTES = 'Every check rebuilds from /repo. Proof obligations are generated on every run from the current sources (engine/); a concrete search on the real build (hunt) replays refuted obligations and stands in, labelled bounded, where a contract is out of reach. See DESIGN.md.'
V4 = 'include/VapourSynth4.h'
def A(files, mech, observe, state=()):
    return {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state], 'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': observe, 'hook_needed': None}
def Q(over, text): return {'over': over, 'text': text}
PROPS = []
def P(id, title, statement, quantifier, why, anchors, **k): PROPS.append(dict(id=id, title=title, statement=statement, quantifier=quantifier, why_tests_cant=why, anchors=anchors, **k))

RE = 'src/core/reorderfilters.cpp'
P('P01', 'Frame-reordering filters return exactly the documented source frames',
  'For every clip and every valid argument, output frame n of Trim, Reverse, Loop, Splice, Interleave, SelectEvery, DuplicateFrames, DeleteFrames and FreezeFrames has the unchanged pixels and properties of the source frame the documentation names, except that duration properties are rescaled when modify_duration asks for it. The output frame count, dimensions, format and frame rate are the documented ones. Arguments that are documented as invalid (frame numbers outside the clip, lengths that overflow, overlapping ranges, mismatched clips without mismatch) are rejected when the filter is created, and valid ones are accepted.',
  Q(['inputs', 'configurations'], 'every clip length from 1 to 2^31-1, every argument value including values outside the 32-bit range, every output frame number, every request order'),
  'The tests sample a handful of small clips and argument values; the index maps must be right for every length, argument and frame, including the last partial cycle and the limits of the frame-number range.',
  A([RE], [('create functions validate arguments and compute the output length', RE), ('getFrame functions map an output frame number to a source frame number', RE)], ['VSVideoInfo of the returned clip', 'frames returned by getFrame', 'error set on the output map'],
    [('frame lists', 'sorted duplicate/delete/freeze lists', 'DuplicateFramesData, DeleteFramesData, FreezeFramesData'), ('cumulative lengths', 'frame offsets of spliced clips', 'SpliceData')]),
  _note='All obligations discharged for every argument value, clip length and frame number; the lengths of list-valued arguments (clips, offsets, frames) are enumerated up to 3 (4 thorough) and are the only bound. Assumes the VSAPI contracts of engine/api.py, std::sort, and that rational scaling is verified separately (P19).')

AF_ = 'src/core/audiofilters.cpp'
P('P02', 'Audio editing filters return exactly the documented samples',
  'For every audio clip and every argument, AudioTrim, AudioSplice, AudioLoop, AudioReverse, AudioGain, AudioMix, ShuffleChannels, SplitChannels, AssumeSampleRate and BlankAudio (silence) either reject the call (with no output) or return a clip with the documented length, format and rate whose every sample is the documented one, whatever frame boundaries the samples cross and in whatever order frames are requested: trimming, splicing, looping and reversing copy samples bit for bit (trim: sample first+i; loop: sample i modulo the length, endless loops as long as a clip can be; splice: the concatenation); gain multiplies (float in single precision) and mix sums weight[output*inputs+input] times each input channel in double precision, integer results being rounded to the nearest step of the significant bits (halves away from zero) and limited to their range, or the frame failing instead when overflow_error is set and a sample had to be limited; ShuffleChannels takes input channels by number or by negative index, orders the outputs by channel number and pads shorter clips with zeros. Every frame has 3072 samples except the last.',
  Q(['inputs', 'configurations', 'schedules'], 'every clip length, sample depth, layout, argument value and frame number, every request order'),
  'Tests use short clips and simple positions; where source frames straddle output frames, the limits of 64-bit lengths, clipping and rounding depend on the values.',
  A([AF_], [('create functions validate and compute the length and channel maps', AF_), ('getFrame functions copy, scale, mix and pad samples', AF_), ('integer rounding', AF_ + ': intSampleRange, quantizeIntSample')], ['VSAudioInfo of the returned clip', 'samples, length and format of returned frames', 'error set on the output map or frame']),
  _note='All filters proved for every clip length, content, sample depth and frame number; AudioTrim and AssumeSampleRate for every argument value. Lists (clips to splice or mix, channels) are enumerated for a few shapes, AudioLoop for clips longer than one frame, overflow_error and the second request of BlankAudio keep are searched on the real build only, as are SplitChannels and the BlankAudio waveforms (waveforms are not covered).')

SF = 'src/core/simplefilters.cpp'
P('P03', 'Geometric filters move every pixel exactly to its documented place',
  'For every constant video format, frame size and valid argument, Crop, CropRel, CropAbs, AddBorders, FlipVertical, FlipHorizontal, Turn180, Transpose, Turn90 and Turn270 produce a clip with the documented dimensions, format, length and rate, and every output pixel of every plane is bit for bit the input pixel the operation names (chroma offsets are the luma offsets divided by the subsampling), or for AddBorders the border colour (black when none is given). Frame properties are copied; only _FieldBased changes, swapping field order when an odd number of lines is cropped from or added at the top. Arguments that leave no pixels, go outside the frame, are negative, or are not a multiple of the subsampling are rejected at creation, without arithmetic overflow, and valid ones are accepted. The result does not depend on the CPU level selected.',
  Q(['inputs', 'configurations'], 'every width, height, subsampling, sample size and argument value, every plane, row and column, scalar and SIMD code paths'),
  'The tests check a few sizes; block/tail handling of the transposes, chroma offsets and argument overflow depend on the size, the sample size and the argument values.',
  A([SF, 'src/core/kernel/transpose.cpp', 'src/core/kernel/x86/transpose_sse2.cpp'], [('create functions validate and compute the output size', SF), ('getFrame functions copy rows, fill borders, flip and transpose', SF), ('blocked transpose kernels', 'src/core/kernel/x86/transpose_sse2.cpp')], ['VSVideoInfo of the returned clip', 'pixels and properties of returned frames', 'error set on the output map']),
  _note='Crop, CropAbs, AddBorders, flips, turns and both transpose kernels (scalar and SSE2) are proved for every size, argument and pixel per sample size and plane count; in the quick tier three-plane SSE2 transposes and some three-plane AddBorders configurations are left to the thorough tier and to the concrete search. Explicit border colours are proved uniform; their numeric value is checked by the search only.')
MF = 'src/core/mergefilters.cpp'; KM = 'src/core/kernel/merge.cpp'; KX = 'src/core/kernel/x86/'
P('P04', 'Plane, stack and field filters place every sample exactly and reject bad input',
  'For every constant format, size and valid argument, StackVertical, StackHorizontal, ShufflePlanes, SplitPlanes, SeparateFields and DoubleWeave produce a clip with the documented format, dimensions, length and rate, and every output sample of every plane is bit for bit the documented input sample: stacked clips follow each other in argument order in every plane, ShufflePlanes output plane i is the named plane of the named clip (with the subsampling implied by the plane sizes), SplitPlanes returns each plane as a grayscale clip, SeparateFields yields the lines of one field per frame in the order given by _FieldBased or else tff, and DoubleWeave combines neighbouring fields according to _Field or else tff, setting _FieldBased. Clips shorter than the output repeat their last frame. SeparateFields and DoubleWeave halve or double the frame rate as documented and SeparateFields halves frame durations when modify_duration is on. Mismatched formats or dimensions, invalid plane numbers or colour families, and subsampling or height combinations that cannot be represented are rejected, and valid arguments are accepted.',
  Q(['inputs', 'configurations'], 'every width, height, subsampling, sample size, clip length and argument value, every plane, row, column and frame number, every combination of field properties'),
  'The tests use a few equal-sized clips of one format; offsets per plane and per clip, field parity and the acceptance conditions depend on the sizes, the subsampling and the properties of each frame.',
  A([SF], [('create functions compare formats and compute the output format and size', SF), ('getFrame functions copy rows of planes and fields', SF)], ['VSVideoInfo of the returned clip', 'pixels and properties of returned frames', 'error set on the output map or by a frame request']),
  _note='Proved per sample size and plane count for every size, frame number and property value; the number of stacked clips is enumerated (2 and 3) and is the only bound. The field order written on the last DoubleWeave frame (both fields are the same frame) is not specified. Rational frame-rate reduction is a contract verified under P19.')
P('P05', 'Merge, mask and difference filters compute the documented value at every pixel',
  'For every supported format (8 to 16 bit integer, half and single float), size, CPU level and valid argument: Merge gives a + (b - a)*weight per plane (integer formats with the weight rounded to 15 bits and the sum rounded to nearest; weight 0 and 1 return the plane of clipa and clipb unchanged; missing weights repeat the last given, default 0.5); MaskedMerge gives the rounded weighted mean (a*(max-m) + b*m)/max, or with premultiplied a*(max-m)/max + b around the plane\'s zero level with clamping, planes not listed are copied from clipa, float masks are clamped to 0..1; PreMultiply gives the rounded product around the zero level (chroma middle, luma 16 scaled for limited range); MakeDiff is a - b + middle and MergeDiff a + b - middle, clamped to the sample range, and MakeFullDiff/MergeFullDiff are the exact one-bit-wider difference and its inverse. Integer results are bit exact and identical at every CPU level, for every width including partial vectors. Properties come from the first clip, shorter clips repeat their last frame, and mismatched formats or sizes, weights outside 0..1, more weights than planes and bad planes lists are rejected without out-of-bounds access.',
  Q(['inputs', 'configurations'], 'every pixel value, width, height, bit depth, weight and mask value; scalar, SSE2, AVX2 and AVX-512 kernels'),
  'Tests sample a few constant clips; rounding, saturation and reciprocal-multiplication shortcuts fail only for particular value triples, bit depths or vector tails.',
  A([MF, KM, KX + 'merge_sse2.cpp', KX + 'merge_avx2.cpp', KX + 'merge_avx512.cpp', 'src/core/float16_helper.h'], [('argument validation and per-plane dispatch', MF), ('scalar kernels', KM), ('vector kernels', KX + 'merge_*.cpp')], ['pixels and properties of returned frames', 'error set on the output map']),
  _note='Every pixel value proved for Make/MergeDiff, Make/MergeFullDiff, PreMultiply, unpremultiplied MaskedMerge and default-weight Merge at all four CPU levels, and for float Merge/MaskedMerge with IEEE operations uninterpreted (so up to the association written in the kernel; FMA read as multiply-add). Explicit integer weights in vector kernels and premultiplied integer MaskedMerge are attempted in the thorough tier and otherwise decided by the concrete search only (bounded). Single-plane masks on subsampled clips need the resizer, which is not built here.')
LF = 'src/core/lutfilters.cpp'; GFI = 'src/core/genericfilters.cpp'
P('P08', 'Per-sample filters compute the documented value of every sample',
  'For every supported format, size, CPU level and valid argument: Invert gives max - v (float 1 - v, float YUV chroma -v; InvertMask always max - v or 1 - v); Limiter clamps to min..max of the plane; Binarize and BinarizeMask give v0 where the sample is below threshold and v1 elsewhere; Levels gives ((clamp(v) - min_in)/(max_in - min_in))^(1/gamma) * (max_out - min_out) + min_out, rounded and clamped for integer formats and unclamped above for float; Lut and Lut2 give the table entry selected by the sample (Lut2: x + y * 2^bits of the first clip) with samples above the bit depth using the last entry, in the requested output depth or float. Per-plane arguments that are missing repeat the previous given value, otherwise the documented default of the format (bottom, top or middle of the range; -0.5, 0.5 and 0 for float chroma unless it is a mask). Planes not listed in planes are bit for bit the input, and properties, length and rate are those of the first clip. More values than planes, values outside the sample range, min above max, an empty or non-finite levels range, wrong table lengths or entries, plane lists that repeat or leave 0..2, and output depths that do not fit the copied planes are rejected, and valid arguments are accepted. Results do not depend on the CPU level.',
  Q(['inputs', 'configurations'], 'every sample value, width, height, bit depth, table and argument value, scalar and AVX-512 kernels'),
  'Tests use a few constant clips and default arguments; defaults per plane, repeated values, out-of-range samples, table sizes and the vector kernels depend on the format and arguments.',
  A([GFI, LF, 'src/core/kernel/x86/lut_avx512.cpp', 'src/core/float16_helper.h'], [('argument defaults and validation', GFI + ': getPlanePixelRangeArgs, getPlaneFloatArgs, levelsCreate'), ('per-sample loops', GFI + ': singlePixelGetFrame, levelsGetframe'), ('table creation and lookup', LF + ': lutCreate, lutGetframe, lut2Getframe')], ['pixels and properties of returned frames', 'VSVideoInfo of the returned clip', 'error set on the output map']),
  _note='Every sample value, size and frame number is proved per format and per shape of the argument list, with table contents symbolic; float operations, pow and round are uninterpreted (the proof shows the documented expression is evaluated). Tables given as a function are not covered. Integer argument values between -1.5 and -0.5, which truncation maps to 0, are not specified.')
P('P07', '3x3 neighbourhood filters compute the documented value at every pixel',
  'For every supported format (8 to 16 bit integer, half and single float), size of at least 4x4 per processed plane, CPU level and valid argument: Minimum and Maximum give the smallest or largest of the centre and the neighbours enabled in coordinates (row by row, all by default), changed by at most threshold; Median gives the median of the nine samples; Deflate and Inflate give the mean of the eight neighbours (integer formats rounded to nearest) if it is below or above the centre, changed by at most threshold; Prewitt and Sobel give scale times the length of the documented gradient, rounded and clamped for integer formats. Outside the plane the edge sample is repeated. Integer results never exceed the sample range and are bit exact for Minimum, Maximum, Median, Deflate and Inflate. Planes not listed in planes are copied bit for bit and properties, format, length and rate are those of the input. Other formats, smaller planes, coordinates that are not exactly eight numbers, thresholds outside the sample range and negative or non-finite thresholds and scales are rejected, and valid arguments are accepted. Results do not depend on the CPU level.',
  Q(['inputs', 'configurations'], 'every sample value, width, height, bit depth, threshold, scale and coordinate set; first, inner and last rows, columns and vectors of scalar, SSE2, AVX2 and AVX-512 kernels'),
  'Tests use a few constant or tiny clips; edge columns, vector tails, saturation and the specialised stencils depend on the width, the values and the CPU level.',
  A([GFI, 'src/core/kernel/generic.cpp', KX + 'generic_impl.h', KX + 'generic_sse2.cpp', KX + 'generic_avx2.cpp', KX + 'generic_avx512.cpp'], [('argument validation and kernel selection', GFI + ': genericCreate, genericGetframe'), ('scalar kernels', 'src/core/kernel/generic.cpp'), ('vector kernels', KX + 'generic_impl.h')], ['pixels and properties of returned frames', 'error set on the output map']),
  _note='Proved for every value, size, row and column per filter, format and CPU level (quick: for each vector kernel the first two and last lane, AVX2 one more; thorough: every lane). Float arithmetic is treated as exact real arithmetic (so association and FMA do not matter), NaN samples are excluded and zeros are identified. Coordinates are symbolic for integer kernels and fixed sets for float and specialised kernels; the concrete search covers the rest.')
P('P06', 'Convolution computes the documented weighted sum at every pixel',
  'For every supported format (8 to 16 bit integer, half and single float), size of at least 4x4 per processed plane, CPU level and valid argument, Convolution gives sum(coefficient * sample) / divisor + bias at every pixel of the processed planes, made absolute when saturate is false, then for integer formats rounded to nearest and clamped to the sample range. A square matrix of 3x3 repeats the edge sample outside the plane; 5x5 to 11x11 and the 1-D modes mirror around the edge with the edge sample repeated. Mode h and v take 3 to 25 coefficients; hv and vh apply the v then the h convolution, each with scaling and rounding. Integer formats round the coefficients to integers, which must lie in -1023..1023. A divisor of 0 or none means the coefficient sum, or 1 when that is 0. No intermediate overflow may change an integer result. Planes not in planes, properties, length and rate are those of the input. CPU levels differ only by float rounding. Wrong matrix sizes, non-finite arguments, unsupported formats, planes below 4x4 and planes not larger than the 1-D radius are creation errors.',
  Q(['inputs', 'configurations'], 'every sample value, width, height, bit depth, matrix, bias and divisor; edges, inner parts and tails of scalar, SSE2, AVX2, AVX-512 and VNNI kernels'),
  'Tests use a few constant clips and small matrices; overflow, edge columns, narrow rows and vector tails depend on the width, the coefficients and the CPU level.',
  A([GFI, 'src/core/kernel/generic.cpp', KX + 'generic_impl.h', KX + 'convolution_impl.h', KX + 'square_impl.h', KX + 'square_vnni_impl.h'], [('argument validation and kernel selection', GFI + ': genericCreate, genericGetframe'), ('scalar kernels', 'src/core/kernel/generic.cpp'), ('vector kernels', KX + '*_impl.h')], ['pixels and properties of returned frames', 'error set on the output map']),
  _note='Proved with symbolic coefficients for every value, size, row and column: the 3x3 square with bias, divisor and saturate per format and CPU level, and vertical mode with 3 and 5 coefficients (up to 11 thorough). Float arithmetic is treated as exact real arithmetic, NaN samples are excluded and zeros are identified. Larger squares, horizontal and separable modes (in-place line buffers) are covered by the concrete search only (bounded), as are half results above 60000 (skipped).')
VC_ = 'src/core/vscore.cpp'
P('P14', 'Format queries, format IDs and clip validation follow one set of rules',
  'A video format is valid exactly when its family is Gray, RGB or YUV, its sample type integer or float, its bit depth 8 to 32 (16 or 32 for float) and its subsampling 0 to 4 in each direction (0 for Gray and RGB). queryVideoFormat fills a valid format with 1, 2 or 4 bytes per sample (the smallest that holds the bits) and 1 plane for Gray, 3 otherwise, accepts the undefined family as all zeros and rejects everything else. queryVideoFormatID gives family<<28 | type<<24 | bits<<16 | subW<<8 | subH and 0 for invalid or undefined formats; getVideoFormatByID is its inverse on valid formats and rejects other IDs; the name of every valid format is GrayN, RGB3N or YUVccc/YUVsswXsshYPN with S and H for float. An audio format is valid exactly when its type is integer or float, its bits 16 to 32 (32 for float) and its channel layout is not empty; the query gives 2 or 4 bytes and the number of set layout bits, and leaves its target alone otherwise. Creating a filter succeeds exactly when the info is consistent: a format with those derived fields (or all zero), non-negative reduced frame rate, width and height both zero or both positive, at least one frame; for audio a positive sample rate and 1 to (2^31-1)*3072 samples, with the number of frames set to the samples divided by 3072 rounded up.',
  Q(['inputs'], 'every combination of the 32-bit fields, every 32-bit ID and every 64-bit channel layout'),
  'Tests query a few known formats; the boundaries of each field, unusual subsampling, high channel bits, the ID round trip and inconsistent infos are value-dependent.',
  A([VC_, 'src/core/vscore.h', 'src/core/vsapi.cpp'], [('format queries and IDs', VC_ + ': queryVideoFormat, queryVideoFormatID, getVideoFormatByID, queryAudioFormat'), ('validation', VC_ + ': isValidVideoFormat, isValidVideoInfo, isValidAudioFormat, isValidAudioInfo'), ('names', VC_ + ': getVideoFormatName, getAudioFormatName')], ['returned format structure, ID and name', 'whether createVideoFilter2 and createAudioFilter2 return a node and its info']),
  _note='All obligations discharged for every field value, ID and layout, including the round trip as a lemma. Names (snprintf) and the node constructor around the validation are checked by exhaustive and random search only. IDs of the previous API (top byte zero) are not covered.')
H4 = 'include/VSHelper4.h'
P('P19', 'Helper arithmetic and comparisons of the public header are exact',
  'reduceRational, muldivRational and addRational leave numerator and denominator at the exact product or sum divided by the positive greatest common divisor (equal denominators are added without reduction), and leave a rational with denominator 0 alone, for all operands that fit 32 bits. int64ToIntS saturates. areValidDimensions holds exactly when width and height are multiples of the subsampling factors; isConstantVideoFormat, isSameVideoFormat, isSameVideoInfo, isSameAudioFormat and isSameAudioInfo compare exactly the documented fields. bitblt copies exactly height rows of row_size bytes between the two strides and writes nothing else.',
  Q(['inputs'], 'every operand of the 32-bit range (64-bit for saturation), every subsampling and size, every field value of the compared structures'),
  'No test calls these functions directly; every filter that changes duration, rate or size depends on them, and their mistakes show up only for particular signs, denominators or fields.',
  A([H4], [('rational arithmetic', H4 + ': muldivRational, addRational, reduceRational'), ('comparisons and saturation', H4 + ': isSame*, int64ToIntS, areValidDimensions, bitblt')], ['values written through the pointers', 'returned truth values']),
  _note='The Euclidean loop is handled by an invariant (the greatest common divisor is preserved and the remainder shrinks) stated over an uninterpreted gcd with its defining identities; everything else is exact bit-vector arithmetic. bitblt and operands beyond 32 bits are covered by random search only.')
WV, VPI, VJS = 'src/common/wave.cpp', 'src/vspipe/vspipe.cpp', 'src/vspipe/vsjson.cpp'
P('P20', 'vspipe writes headers, samples, frames, timecodes and properties exactly',
  'vspipe writes the frames of the selected output and range (-s, -e) in order, whatever the number of concurrent requests and the order of completion: each plane row by row without padding, RGB as G, B, R, the alpha frame right after its frame; with y4m one YUV4MPEG2 header naming format, size, rate and the number of frames of the range, and FRAME before each frame. Audio is written interleaved, every channel sample in little endian at its output size (17 to 24 bit integers as the upper three of four bytes), without header or after a WAVE or Wave64 extensible header whose sizes, masks and rates are those of the range written; WAVE is refused when the file would pass 2^32-1 bytes, and both are refused for channels beyond bit 31. Timecodes are format v2, each the sum of the durations before it; a frame without a positive duration ends the output with an error. The JSON file holds one valid JSON object per frame with all properties (nodes, frames, functions and non-finite numbers as null). Errors give a non-zero exit code.',
  Q(['inputs', 'schedules'], 'every sample, channel mask, rate, length and bit depth (proved for packing and headers); formats, sizes, ranges, request counts, completion orders, properties (searched)'),
  'The tests never run vspipe to completion on real clips nor look at a header; lengths above 2^31, three-byte samples with many channels and out-of-order completion cannot be sampled there.',
  A([WV, VPI, VJS], [('packing and headers', WV + ': PackChannels*, CreateWave*'), ('frame stream', VPI + ': frameDoneCallback, outputFrame, initializeVideoOutput, initializeAudioOutput'), ('properties', VJS + ': convertVSMapToJSON')], ['bytes of the output, timecode and JSON files', 'exit code']),
  _note='Packing (any length; 1, 2 and 6 channels quick, 1 to 8 thorough) and all three headers are proved against byte-level contracts; the population count of the mask is an uninterpreted function. The frame stream (callbacks of the scheduler, C stdio) is out of the verifier reach: bounded search with the real program and a stand-in for the scripting library only.')
P('P21', 'Frame property filters change exactly the named properties and nothing else',
  'SetFrameProp, SetFrameProps, SetFieldBased, RemoveFrameProps, CopyFrameProps and ClipToProp deliver frame n of the clip with identical pixels, format and size, and with exactly the documented properties changed; every other property keeps type, number of elements, order, values and type hints, and the input frame itself is never modified. SetFrameProp replaces the named property by all given integers, floats or data (exactly one of the three, non-empty name, otherwise an error). SetFrameProps sets every argument except clip. SetFieldBased accepts 0 to 2, sets _FieldBased and removes _Field. RemoveFrameProps without patterns removes everything; with patterns it removes the properties whose whole name matches one of them, * standing for any sequence, ? for one character and every other character for itself. CopyFrameProps without names replaces all properties by those of the frame with the same number (the last one past the end) of prop_src; with names it makes exactly those equal to the ones there, of any type, and removes those that are absent there. ClipToProp stores the frame of mclip with the same number as the only element of the property (_Alpha by default) and has the length of mclip. PropToClip delivers the frame stored in the given property and index of each frame, and an error when it is missing or its format or size differ from those of the first.',
  Q(['inputs'], 'every property set, name, number of elements, type, frame number and clip length'),
  'The tests set and read a handful of properties; types, element counts, unequal clip lengths, repeated use on the same property and pattern characters are unbounded.',
  A(['src/core/simplefilters.cpp'], [('property filters', 'src/core/simplefilters.cpp: setFrameProp*, setFrameProps*, removeFrameProps*, setFieldBased*, copyFrameProps*, clipToProp*, propToClip*')], ['frame properties', 'pixels', 'clip properties', 'errors']),
  _note='Proved with property names and data values as arbitrary strings and any number of integer or float elements; SetFrameProp data for 1 to 3 elements and CopyFrameProps for 0 to 2 names. RemoveFrameProps with patterns (std::regex) is bounded search only. The map functions of the API are an assumed contract.')
AF = 'src/core/averageframesfilter.cpp'
P('P10', 'AverageFrames gives the documented weighted sum of frames at every pixel',
  'With several clips (one weight each) frame n of AverageFrames combines frame n of every clip (the last one past the end of a shorter clip) and has the length of the longest; with one clip and an odd number of weights it combines the frames n-k to n+k around n, frames before the first or past the last being the first or last. Every pixel of a processed plane is sum(weight * sample) / scale; for 8 to 16 bit integer formats the weights are rounded to integers of -1023..1023, YUV chroma is taken relative to its middle value, the quotient is computed as float(sum) * (1 / scale) in single precision, rounded to nearest even and clamped to the sample range, and no intermediate overflow occurs; half and single float are summed in single precision. scale is the given positive one (rounded for integers) or else the sum of the weights, 1 when that is below 1 (below 2^-23 for float). With scenechange (one clip only) the window ends at the nearest frame before or at the centre whose _SceneChangePrev is not 0 and at the nearest frame from the centre on whose _SceneChangeNext is not 0, and the weights outside it are added to the centre weight. Unprocessed planes and the properties come from the centre frame or from the first clip. More than 31 weights, a wrong number of weights, scenechange with several clips, differing formats or sizes, non-finite or out-of-range weights and scales are creation errors.',
  Q(['inputs', 'configurations'], 'every sample value, width, height, format, weight, scale, frame number, clip length and scene change pattern'),
  'Tests average a few constant clips; ends of the clip, unequal lengths, negative weights, chroma, rounding and overlapping scene changes depend on values and positions.',
  A([AF], [('argument validation', AF + ': averageFramesCreate'), ('frame window and scene changes', AF + ': averageFramesGetFrame'), ('kernels', AF + ': average_int, average_float, average_half')], ['pixels and properties of returned frames', 'clip properties', 'error set on the output map']),
  _note='Proved for 1, 3 and 5 weights over one clip (7, 9, 15 and 23 thorough), 2 and 3 clips (4, 5, 12 and 31 thorough) and scene changes in windows of 3 and 5, with symbolic weights, scale, samples, sizes and frame numbers; other counts are covered by the concrete search. Float operations are taken as written in the source (the compiler may contract or reorder nothing in integer formats; the search allows rounding differences for float).')
# ---------------------------------------------------------------- not applicable: stated, not claimed
TP = 'src/core/vsthreadpool.cpp'; EX = 'src/core/expr/'; PY = 'src/cython/vapoursynth.pyx'
P('P11', 'Expr evaluates exactly the given postfix expression at every pixel',
  'For every valid postfix expression, number of input clips, format and size, every output pixel of Expr equals the expression evaluated on the corresponding input pixels in single precision (integers where the documentation says so), rounded and clamped to the output format; invalid expressions are rejected.',
  Q(['inputs'], 'every expression, format and pixel'), 'Tests evaluate some expressions; optimisation passes and code generation interact over all programs.',
  A([EX, 'src/core/exprfilter.cpp'], [('parser, optimiser and x86 code generator', EX)], ['output pixels']),
  _na='The code that computes the pixels is machine code generated at run time by the filter itself; it has no source or IR for a deductive verifier, and a contract on the generator needs a formal semantics of x86 and a proof about the optimiser over unbounded programs, out of reach here.')
P('P12', 'VSMap keeps every stored value, type and order, and reports errors',
  'Setting, appending, reading, deleting, copying and clearing keys of a map behaves as a map from names to typed value lists: values come back bit for bit in order, types never mix, invalid names, types and indices give the documented error codes, and copies are independent of later changes.',
  Q(['inputs', 'histories'], 'every sequence of map calls'), 'Tests use short sequences; sharing and copy-on-write errors need particular histories.',
  A([VC_, 'src/core/vsapi.cpp', 'src/core/vscore.h'], [('copy-on-write storage', 'src/core/vscore.h: VSMap, VSMapStorage, VSArrayBase')], ['values and error codes of the map API']),
  _na='The map is std::map, std::variant and intrusive reference counts over heap-allocated polymorphic arrays; the verification-condition generator built here has no heap (separation) logic for balanced trees with string keys or virtual dispatch on unbounded structures, so no contract strong enough to decide the property can be discharged.')
P('P13', 'Frames are isolated: writing one never changes another',
  'A frame obtained by copying, by reference or from a filter keeps its pixels and properties whatever is written to other frames; writable access copies shared planes first; plane sizes, strides and alignment follow the format.',
  Q(['inputs', 'histories', 'schedules'], 'every sequence of frame operations on several threads'), 'Sharing errors need particular histories and thread timing.',
  A([VC_, 'src/core/vscore.h'], [('copy-on-write planes', VC_ + ': VSFrame')], ['plane contents, strides']),
  _na='Copy-on-write correctness rests on atomic reference counts shared between threads; the verifier here is sequential (other threads only appear as arbitrary values of atomics), so the guarantee cannot be expressed as obligations it can discharge. Filters are verified against the resulting contract (assumed, listed in the evidence).')
P('P15', 'Caching never changes which frame a request returns',
  'Whatever the cache size, request pattern, memory pressure or request order, a request for frame n of a node returns the frame its filter produces for n, and filters are called as their mode demands.',
  Q(['histories', 'schedules'], 'every request order and cache state'), 'Needs particular request histories.',
  A([VC_, 'src/core/vscore.h'], [('per-node cache', VC_ + ': VSCache, VSNode')], ['frames returned by getFrame']),
  _na='The cache is a hash map with an intrusive LRU list and weak entries, changed under locks by several threads; contracts on it need heap and concurrency reasoning the verifier here does not have.')
P('P16', 'The scheduler runs every request exactly once and honours filter modes',
  'Every frame request completes exactly once with a frame or an error for any number of threads and any dependency graph; fmUnordered and fmFrameState filters never run concurrently with themselves, fmParallelRequests only in the request phase; shutdown waits for running work and never deadlocks.',
  Q(['schedules'], 'every interleaving of worker threads'), 'Interleavings cannot be enumerated by tests.',
  A([TP, 'src/core/vscore.h'], [('task list and worker loop', TP)], ['completion callbacks, filter entry and exit']),
  _na='A property of thread interleavings over locks and condition variables. Function-by-function deductive verification with this sequential generator cannot state it; model checking would be a different family.')
P('P17', 'Frame memory is accounted for and all of it is released',
  'The used frame buffer size equals the bytes of all live frame planes at every moment, returns to zero when everything is freed, and every object is freed exactly once, including on error paths.',
  Q(['histories', 'schedules'], 'every sequence of allocations and errors'), 'Leaks and double frees hide on rare error paths.',
  A(['src/core/memoryuse.cpp', VC_], [('allocation accounting', 'src/core/memoryuse.cpp')], ['getCoreInfo usedFramebufferSize']),
  _na='Ownership across threads and callbacks needs a separation logic with concurrent reference counts, which the verifier here lacks. Within single filters leaked or doubly freed frames are visible to the verified contracts only partly.')
P('P18', 'Function calls are checked against their declared signature',
  'Invoking a plugin function accepts exactly the argument maps its signature string describes (types, counts, optional, empty and unknown arguments), reports the documented error otherwise and never calls the function on a rejected map; registering parses every valid signature and rejects every other.',
  Q(['inputs'], 'every signature string and argument map'), 'Tests use a few signatures.',
  A([VC_], [('signature parser and invoke', VC_ + ': VSPluginFunction')], ['result map of invoke']),
  _na='Signature parsing works on std::string, std::string_view and vectors of parsed records built by library code that the generator treats as opaque, so the obligations that matter (which text is accepted) cannot be expressed; the string theory needed is out of reach.')
P('P22', 'Format conversion and resizing follow the documented matrices and kernels',
  'The resize functions convert between formats, matrices, transfer curves and sizes as documented for every input.', Q(['inputs'], 'every format pair, size and pixel'), 'Only samples are tested.',
  A(['src/core/vsresize.cpp'], [('glue between frames and zimg', 'src/core/vsresize.cpp')], ['output pixels']),
  _na='The arithmetic is in the external library zimg, which is not part of the repository and not in this build; vsresize.cpp is not compiled here.')
P('P23', 'The Python module mirrors the C API without leaks or wrong conversions',
  'Every Python operation on nodes, frames, formats and functions has the effect of the C API call it stands for: arguments are converted exactly or rejected, slices and arithmetic on clips map to the documented filters, objects stay valid while referenced.',
  Q(['inputs', 'histories'], 'every Python call sequence'), 'Tests sample some calls.',
  A([PY], [('argument conversion and wrappers', PY)], ['Python return values and exceptions']),
  _na='The module is Cython; no deductive verifier for Cython or CPython object semantics is available offline, and the generated C works on PyObject structures outside the verifier reach.')
P('P24', 'Log handlers receive every message once, in order, and may be changed any time',
  'Each log message is delivered exactly once to every handler installed at that time, messages before the first handler are kept and replayed, fatal messages abort after delivery, and handlers can be added and removed from any thread.',
  Q(['histories', 'schedules'], 'every order of logging and handler changes on several threads'), 'Depends on interleavings.',
  A([VC_, 'src/core/vslog.cpp'], [('handler set and message queue', VC_ + ': VSCore::logMessage')], ['handler calls']),
  _na='Concurrent container and callback behaviour; not expressible as sequential function contracts with the verifier built here.')

NA = []
