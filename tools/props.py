"""The properties: one table from which properties.jsonl and MANIFEST.json are generated."""

T = 'symbolic execution of the real Python code, z3 decides every branch and assertion'
DN = 'delayed_image/delayed_nodes.py'
DB = 'delayed_image/delayed_base.py'
DL = 'delayed_image/delayed_leafs.py'
CS = 'delayed_image/channel_spec.py'
LL = 'delayed_image/lazy_loaders.py'
HE = 'delayed_image/helpers.py'

OPT = [('operation fusion and swap rules', DN + ' (optimize, _opt_* and _optimized_* methods)'),
       ('concatenation push-down', DN + ' (DelayedChannelConcat.optimize, _push_operation_under)')]
TREEQ = ('every chain of crop / channel selection / affine warp / overview / dequantize / concatenate operations of '
         'the listed shapes, and every value of image sizes, windows, offsets, output sizes and stored overview counts '
         'within the bounds')
TREEW = ('The tests optimize a few hand-written trees with fixed numbers on the demo image. The rewrite rules are '
         'arithmetic over sizes, windows and transforms with rounding; a rule can be right for the sampled numbers and '
         'wrong for others.')

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, note='', state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, note=note, state=state, observe=observe))


P('P01', 'Optimizing a tree keeps the declared size and channels',
  'Optimizing any operation tree gives a tree that declares exactly the same width, height, number of channels, shape and '
  'channel names as the original. Every output channel of the optimized tree reads the same channel of the same source image '
  '(or the same no-data region) as before. Optimization does not fail on a tree that was built successfully.',
  ['programs', 'inputs'], TREEQ, TREEW, [DN, DB, DL], OPT)
P('P02', 'Optimizing a tree keeps the geometry',
  'For every channel whose output canvas shows some of its source image, the affine mapping from source-image coordinates to '
  'output coordinates is the same before and after optimization, including the sub-pixel offset bookkeeping of integer '
  'crops and overview levels. The transform that a tree reports from its leaf composes exactly the operations on the path.',
  ['programs', 'inputs'], TREEQ, TREEW, [DN, DB], OPT + [('leaf transform reports', DN + ' (get_transform_from_leaf, get_transform_from)')])
P('P03', 'Optimizing a tree never discards needed source pixels',
  'When optimization moves a crop below a warp it may read a smaller window of the source, but every source pixel that '
  'bilinear resampling of a visible output pixel depends on stays inside the window that the optimized tree reads.',
  ['programs', 'inputs'], TREEQ, TREEW, [DN], [('crop before warp', DN + ' (DelayedCrop._opt_warp_after_crop)'), ('crop and overview swaps', DN)])
P('P04', 'Optimizing a tree keeps the resampling parameters',
  'The interpolation mode, antialiasing flag, noise floor, border value and warp backend that the user asked for on a '
  'warp still apply to the resampling of the same channel after optimization. Merging two warps keeps the parameters '
  'of one of the requested warps and never falls back to defaults.',
  ['programs', 'inputs'], TREEQ, TREEW, [DN], OPT)
P('P05', 'Optimizing never modifies its input and is repeatable',
  'Optimizing a tree leaves every node of the given tree as it was, so the tree can still be used, optimized again with the '
  'same result, or shared between several parents. Optimizing an already optimized tree does not change its size, channels or geometry.',
  ['programs', 'histories'], TREEQ + '; repeated optimize calls and nodes shared by two parents', TREEW, [DN, DB],
  OPT + [('node metadata', DB + ' (DelayedOperation.meta, nesting, __nice__)')])
P('P06', 'Dequantization is applied exactly once and before interpolation',
  'In an optimized tree each channel passes through exactly the dequantizations, with the same parameters, it passed through '
  'in the original, and none of them is applied after an interpolating (non-nearest) resampling. '
  'A dequantize step never changes the extent of its data.',
  ['programs', 'inputs'], TREEQ + ' with a dequantize step at any position', TREEW, [DN],
  [('dequantize push-down', DN + ' (DelayedDequantize.optimize, _opt_dequant_before_other)')])
P('P07', 'Overviews are used only when stored and never lose resolution',
  'A tree optimized for a downscaling warp reads a stored overview level that exists in the source file and that is never '
  'coarser than the requested output, and it uses a stored level whenever the total downscale is at least two in both axes. '
  'The scale of the overview level times the residual warp is exactly the requested scale.',
  ['programs', 'inputs'], 'every positive scale factor per axis within the bounds, every stored overview count 0..3 and the listed chains', TREEW, [DN],
  [('warp split', DN + ' (DelayedWarp._opt_split_warp_overview, _opt_absorb_overview)')])

IMW = ('The tests check a few fixed windows of the demo image. The property depends on how symbolic sizes, offsets and signs '
       'interact, which a handful of numbers does not cover.')
P('P08', 'Cropping follows numpy slicing and never invents or shifts pixels',
  'Cropping a tree, once or repeatedly, with any combination of missing, negative, reversed or out of range slice bounds declares the same '
  'shape as numpy slicing and delivers exactly the pixels numpy slicing would, with and without optimization, also when the crop selects channels.',
  ['inputs'], 'every image size, every slice bound (missing or any integer) and every listed chain of crops within the bounds', IMW,
  [DN, DB], [('crop construction', DN + ' (ImageOpsMixin.crop, DelayedCrop)'), ('crop fusion', DN + ' (DelayedCrop._opt_fuse_crops)')])
P('P09', 'Padded crops return the requested window with fill outside the image',
  'A crop with clip and wrap disabled, with or without padding, has exactly the size of the requested window plus padding, even if it '
  'lies partly or fully outside of the image. Pixels inside the image are copied exactly, all others are NaN for float and zero for integer '
  'data, and a channel selection is honored; optimization keeps all of this.',
  ['inputs'], 'every image size, window and padding within the bounds', IMW,
  [DN], [('padded crop', DN + ' (ImageOpsMixin.crop, DelayedWarp._finalize)'), ('optimization', DN + ' (DelayedWarp, DelayedCrop optimize)')])
P('P10', 'Channel selection delivers the requested channels or reports them missing',
  'Selecting channels by name or by index, also from concatenated or already cropped images, declares the requested channels in the requested '
  'order and delivers the pixels of the channel of that name or index. Channels that do not exist become NaN or raise an error as the '
  'missing-channel policy says. The original tree is not modified.',
  ['inputs'], 'every coincidence of requested and available names, every list of up to 3 valid or invalid indices, within the bounds',
  'The tests select a few fixed names. Which branch runs depends on how names are spread over and repeated in the concatenated parts.',
  [DN, DL], [('channel selection', DN + ' (take_channels, DelayedChannelConcat.take_channels, DelayedArray.take_channels)'), ('channel crop', DN + ' (DelayedCrop)')])
P('P11', 'Lazy flags only skip operations that change nothing',
  'With lazy=True a crop or warp may return its input unchanged only if the plain operation would have produced the same declared size, channels, '
  'transform and pixels. In every other case it gives the result of the plain operation.',
  ['inputs'], 'every image size, slice bound, padding, transform and output size within the bounds', IMW,
  [DN], [('lazy crop', DN + ' (ImageOpsMixin.crop)'), ('lazy warp', DN + ' (ImageOpsMixin.warp)')])
P('P12', 'The transform between two views of a source is exact and consistent',
  'For two trees built from the same source by different operations, get_transform_from gives the affine transform that maps coordinates of the one '
  'to coordinates of the other. Swapping the two views gives the inverse, a view relative to itself gives the identity, transforms compose along a third view, '
  'and optimization of the views does not change the result.',
  ['programs', 'inputs'], 'every listed pair of operation chains, every window, offset and size within the bounds', TREEW,
  [DN, DB], [('relative transforms', DN + ' (get_transform_from, get_transform_from_leaf)')])


CHW = ('The tests use a handful of fixed spec strings. The algebra must hold for every index, every slice width and step and '
       'every way the channels of two operands can coincide.')
SC = 'delayed_image/sensorchan_spec.py'
P('P13', 'Output sizes of warp, scale, resize and overview are as documented',
  'A warp, scale, resize or rotation declares the requested output size, or without a request the smallest canvas that holds the '
  'warped corners, never negative. Its transform is the requested one, an overview level halves the size per level rounding up '
  'and reports the scale of exactly that level, and the parts that a request leaves open are derived from the parts it gives.',
  ['inputs'], 'every listed request form with every size, factor, offset and level within the bounds',
  'Tests check a few sizes. Rounding of a canvas or a size with one open side depends on every size and factor.', [DN, HE],
  [('automatic size', HE + ' (_auto_dsize)'), ('requests', DN + ' (warp, scale, resize, rotate, get_overview)')])
P('P14', 'No-data regions stay no-data under every operation',
  'Whatever crops, channel selections, warps, overviews and dequantizations are applied to a no-data image, every pixel of the result is missing, '
  'with the declared size and channels and as NaN or masked as requested for that image. Optimizing reduces such a tree to a plain no-data image. '
  'Joined with data, the missing channels do not change the data.',
  ['programs', 'inputs'], 'every canvas size, crop bound, offset and output size within the bounds, for the listed chains and no-data kinds, and every pixel',
  'Tests build a few no-data trees. Sizes after clipping and the kind of the result depend on every combination.', [DL, DN],
  [('no-data leaves', DL + ' (DelayedNans, DelayedNodata)'), ('pushing operations into leaves', DN + ' (DelayedCrop.optimize, DelayedWarp.optimize)')])
P('P15', 'Dequantization maps codes linearly and only the no-data code to NaN',
  'Dequantizing maps every stored value by the linear map that takes the quantization range to the original range, for every integer type and range. '
  'Exactly the pixels that hold the no-data code become NaN, a code that the type cannot hold marks nothing, and a degenerate range gives its minimum. '
  'Masked pixels stay masked and the stored data is not modified.',
  ['inputs'], 'every stored value, quantization range, original range and no-data code within the bounds',
  'Tests use one range per type. Overflow of small integers and unrepresentable codes show only for particular combinations.', [HE, DN],
  [('dequantize', HE + ' (dequantize)'), ('node', DN + ' (DelayedDequantize._finalize)')])
P('P16', 'Quantized float images come back within one quantization step',
  'Quantizing a float image gives codes inside the reported range for every pixel value, in particular no value overflows or collides with the missing code. '
  'Dequantizing with the reported description returns every value, clipped to the range, with an error of at most one step, NaN exactly where it was, '
  'and larger values never get smaller codes.',
  ['inputs'], 'every pixel value and range position within the bounds, in exact and in bit-precise floating point arithmetic, for every code type',
  'Tests quantize a few values. Rounding and overflow at the ends of the range depend on the float type, code type and range together.', [HE],
  [('quantize_float01', HE + ' (quantize_float01)')])
P('P17', 'Channel specs expand, count and condense to the same channels',
  'A channel spec text denotes an ordered list of channel names per stream: aliases such as rgb and slices such as m.0:3 or m:2 '
  'expand to their documented members in order. Normalizing gives exactly that list, the channel count and the per-code sizes '
  'match it, the concise form denotes the same list, uses no more codes, and splitting and fusing streams keep it. '
  'None of these operations modify the spec.',
  ['inputs'], 'every listed pattern of names, aliases and slices with every index, slice width and step within the bounds', CHW,
  [CS], [('parsing, normalizing, condensing', CS + ' (FusedChannelSpec, ChannelSpec)')])
P('P18', 'Channel spec set operations agree with ordered set algebra',
  'Intersection, difference, union, subset and superset tests, sub-sequence position, membership and late fusing of two channel specs agree '
  'with ordered set operations on their expanded channel names, whichever aliases and slices are used to write them. '
  'Results keep the order of the left operand, followed for a union by the new channels of the right one, and the operands are unchanged.',
  ['inputs'], 'every listed pattern pair with every index within the bounds, that is every way the channels of the operands can coincide', CHW,
  [CS], [('set operations', CS + ' (intersection, difference, union, issubset, issuperset, late_fuse)')])
P('P19', 'Channel specs locate, encode and decode the right data',
  'The component indices of a channel spec give for each code the position of its channels inside the fused axis, without gaps or '
  'overlap. Encoding an item into the fused inputs of a spec places every requested channel at its position, whichever way the item groups '
  'its channels, and decoding the fused inputs returns the data of every code. Inputs are not modified.',
  ['inputs'], 'every listed spec with every slice start and width and every channel value within the bounds', CHW,
  [CS], [('component indices, encode, decode', CS + ' (component_indices, encode, decode)')])
P('P20', 'Sensor channel specs keep the sensor and channel pairs they denote',
  'A sensor channel text denotes a list of (sensor, channel list) streams: a group of sensors or channel streams distributes over its members. '
  'Listing, normalizing, condensing, splitting, late fusing and selecting a sensor keep exactly those pairs, and counts match. '
  'None of the operations modify the spec.',
  ['inputs'], 'every listed text with every channel index within the bounds', CHW,
  [SC], [('grammar and transformers', SC + ' (SensorChanSpec, FusedSensorChanSpec, NormalizeTransformer, ConciseFilter)')])
P('P21', 'Windows, bands and overview levels of image files are read as requested',
  'Reading an image file through any window, band selection and stored overview level returns exactly that window of exactly that level with the size it declares, '
  'following numpy indexing. No-data values of every band become NaN, masked or stay as requested, and nothing else is marked. '
  'Impossible requests are refused instead of answered with other data.',
  ['inputs'], 'every image size, window bound, band and no-data value within the bounds, for the listed request forms and options',
  'Tests read one demo file. Window arithmetic with open, negative and out of range bounds, unequal band no-data values and odd overview sizes '
  'goes wrong for particular combinations only.', [LL, DL],
  [('window reads', LL + ' (LazyGDalFrameFile.__getitem__, _rectify_slice_dim)'), ('file leaves', DL + ' (DelayedLoad)')])
P('P22', 'The bounded reader cache keeps the most recently used entries',
  'After any history of stores, lookups and removals the cache holds at most its capacity, exactly the most recently used keys with the last stored values, '
  'in order of use. Lookups of other keys raise KeyError and caches do not affect each other.',
  ['histories'], 'every history of the listed operation sequences with any keys and capacity', 'The test stores four entries once.', [LL],
  [('bounded cache', LL + ' (CacheDict)')])
P('P23', 'A rendered warp shows the right source position with the requested options',
  'Rendering a warp produces the declared canvas where every pixel shows the source position given by the inverse transform, or the border value outside '
  'of the source, whichever of the internal rendering routes is taken. Interpolation, antialiasing, border and backend options reach the '
  'resampling as requested, and masked images stay masked.',
  ['inputs'], 'every image, canvas and offset within the bounds for the listed linear parts, options, pixel kinds, and every output pixel',
  'Tests render a few warps of one image. Which route renders a warp and where rounding goes depends on sizes, offsets and options together.', [DN],
  [('warp rendering', DN + ' (DelayedWarp._finalize)')])
P('P24', 'Rendering a tree shows the composition of its operations',
  'Every pixel of a rendered tree shows the source position and channel that the composition of its operations gives, filled outside of the source as requested, '
  'whether or not the tree is optimized first. The array has the declared shape and the pixel and mask kind that the operations give.',
  ['programs', 'inputs'], 'the listed operation chains with every size, window, offset and stored overview count within the bounds, and every output pixel',
  'Tests compare renderings of a few trees on one image. Rendering combines rounding of every step, and errors show only for particular numbers.', [DN, DL, DB],
  [('rendering', DN + ' (_finalize methods)'), ('leaves', DL + ' (_finalize methods)')])
P('P25', 'Undoing warps returns to the source grid and reports the applied transform',
  'Undoing the warps of a tree gives parts whose transform back to the tree is the reported one, and removes exactly the requested '
  'components: removing everything restores the source grid, removing only the scale or only the rotation leaves the rest. The resampling options '
  'of the removal are honored and no-data parts are squashed only when asked.',
  ['programs', 'inputs'], 'every listed chain of warps and crops over one or two sources, every window, offset and size within the bounds', TREEW,
  [DN], [('undo_warp, undo_warps', DN + ' (DelayedChannelConcat.undo_warps, DelayedImage.undo_warp)')])

P('P26', 'Evaluated trees and xarray casts keep what the tree declares',
  'Evaluating a tree gives a new source image with the size, channels and pixels that the tree declares and renders, and later crops and channel '
  'selections act on it as on the tree. A cast to xarray keeps size and pixels, labels the axes and the channels with the declared names, turns masked '
  'pixels into NaN, and leaves size, channels and transform of the tree as they are.',
  ['programs', 'inputs'], 'every image size, every window and pixel within the bounds, for in-memory, masked, unnamed, file, no-data and concatenated sources',
  'Tests evaluate one demo tree; masks, unnamed channels and windows interact and each combination takes another route.', [DN, DL, DB],
  [('evaluate', DN + ' (DelayedImage.evaluate)'), ('cast', DN + ' (DelayedAsXarray)'), ('new source', DL + ' (DelayedIdentity)')])
P('P27', 'The paths of a tree and nested options reach every operation once',
  'Walking a tree visits every operation along every path from the top exactly once, also when operations are shared by several parents. Every path from '
  'the top to a leaf is reported once, as a tree of the operations on it whose transform is the composition of their transforms. Options that are set for a '
  'whole tree reach every operation that has them and nothing else, and walking modifies nothing.',
  ['programs', 'inputs'], 'every tree of up to five nodes over the listed operations, shared in every possible way, every offset', TREEW,
  [DB], [('walks', DB + ' (_traverse, leafs, _leaf_paths, _traversed_graph, nesting)'), ('options', DB + ' (_set_nested_params)')])
P('P28', 'Printed trees show every operation once with its parameters',
  'Printing a tree writes one line per operation on every path from the top, in the order of the parts, and the layout determines which operation is the '
  'input of which, in vertical and horizontal layout. Every line names the kind of operation and its parameters with their values; only display options '
  'are hidden and only in the automatic field set. Making the graph of a tree or printing it does not modify the tree.',
  ['programs', 'inputs'], 'every tree of up to four nodes over the listed operations, shared in every possible way, every size and offset', TREEW,
  [DB, 'delayed_image/util/util_network_text.py'],
  [('graph', DB + ' (as_graph, _traversed_graph, print_graph)'), ('text', 'delayed_image/util/util_network_text.py (generate_network_text, write_network_text)')])
P('P29', 'Trees built before a file is opened equal those built afterwards',
  'A tree over a file of known size that is built before the file was opened declares what the tree over the opened file declares, or nothing where the file has '
  'to be asked. It optimizes without using levels it does not know of. Once prepared, it has the same shape, geometry, options and '
  'pyramid levels as a tree that was built over the opened file, plain and optimized.',
  ['programs', 'histories'], 'every listed chain over one or two files, with channels and levels declared or not, every size, window, offset and number of stored levels', TREEW,
  [DL, DN, DB], [('metadata', DL + ' (DelayedLoad.prepare, _load_metadata)'), ('propagation', DN + ' (num_channels, num_overviews, channels)'), ('prepare', DB + ' (prepare)')])

P('P30', 'Drawn graphs read back as the same graph',
  'The network text of a graph writes every node that can be reached from the start nodes on a line of its own exactly once, and layout and back references '
  'show every edge exactly once, in both glyph sets, with and without vertical chains; parse_network_text gives the graph back. A depth limit or a collapsed node '
  'hides only what lies below it, with an ellipsis exactly where something is hidden. Labels replace nodes where given, forests are drawn the same way and '
  'other graphs refused by forest_str, and the graph is not modified.',
  ['inputs'], 'every graph up to the listed sizes, every choice of start nodes, depth limit, collapsed node and labels',
  'tests draw a handful of graphs; which edges become tree edges, back references or ellipses depends on the whole graph',
  ['delayed_image/util/util_network_text.py'],
  [('drawing', 'delayed_image/util/util_network_text.py (generate_network_text, _find_sources, write_network_text, forest_str)'),
   ('parsing', 'delayed_image/util/util_network_text.py (parse_network_text)')])


NA = []


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append((id, reason))
    P(id, title, statement, over, qtext, why, files, mech)
    PROPS[-1]['na'] = True


def finish():
    N('N01', 'Resampled pixel values equal the reference interpolation',
      'The values of a warped image equal the mathematical affine resampling of the source with the requested interpolation, '
      'up to the precision of the pixel type.',
      ['inputs'], 'every image content and every affine transform', 'tests compare a few images', [DN], [('warp rendering', DN + ' (DelayedWarp._finalize)')],
      'the arithmetic is compiled OpenCV code working on floating point pixels; it cannot be encoded from here. The calls made into it are decided by P23.')
    N('N02', 'Decoded file content equals the stored raster',
      'Reading a window of an image file returns exactly the stored pixels of that window, at full resolution or from a stored overview.',
      ['inputs'], 'every file and every window', 'tests read one demo image', [LL, DL], [('GDAL reader', LL + ' (LazyGDalFrameFile)')],
      'decoding is compiled GDAL code outside of this repository; the window arithmetic around it is decided by P21.')
    global NOT_APPLICABLE
    NOT_APPLICABLE = NA
