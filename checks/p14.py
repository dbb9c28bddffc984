"""
No-data leaves: whatever is done to them they stay no-data, with the declared size,
channels and no-data kind, and they do not disturb data they are combined with.
"""
import numpy as np
from checks.imglib import window
from checks.trees import W, Builder, CHANS
from vlib import symimg, warpmodel
from vlib.symimg import CH
from delayed_image.delayed_leafs import DelayedIdentity, DelayedImageLeaf, DelayedNans, DelayedNodata
from delayed_image.delayed_nodes import DelayedChannelConcat
PROPERTY = 'P14'
EXPECT = ['leaf', 'declared', 'kind', 'missing', 'data', 'channels']
BOUNDS = ('canvas sides in [1,32], crop windows with any bounds in [-64,64] or open, warp offsets every multiple of 1/4 in [-12,12] with '
          'the linear parts of checks/trees.py, canvas sides in [1,32] or automatic, the chains of checks/p14.py; every output pixel')
OUTSIDE = ('an explicit border value of a warp over no-data (rendered without optimization it fills the border, with it the whole '
           'canvas is no-data); the value hidden below a mask')
STUBS = symimg.STUBS + ['kwimage.warp_affine, kwimage.imresize: vlib/warpmodel.py (also in replays)']
OPTS = dict(time_s=25, max_paths=600, query_ms=6000)
OPTS_THOROUGH = dict(time_s=240, max_paths=8000)
BUDGET = {'quick': 120, 'thorough': 1500}
HI = 32
KINDS = ['nans', 'float', 'nan', 'none', 'ma']


class B(Builder):
    def __init__(self, ctx, kind):
        super().__init__(ctx, lo=1, hi=HI, mirror=False)
        self.kind = kind

    def leaf(self, tok):
        if tok[0] == 'N':
            idx = int(tok[1])
            dsize = self.common_dsize() if tok.endswith('=') else self.pair('w%d' % idx, 'h%d' % idx, self.lo, self.hi)
            chans = None if 'u' in tok else CHANS[idx]
            if 'i' in tok:
                # a number of channels without names
                chans = CHANS[idx].count('|') + 1
            if self.kind == 'nans':
                leaf = DelayedNans(dsize=dsize, channels=chans)
            else:
                leaf = DelayedNodata(dsize=dsize, channels=chans, nodata_method=None if self.kind == 'none' else self.kind)
        else:
            idx = int(tok[1])
            w, h = self.common_dsize()
            n = CHANS[idx].count('|') + 1
            img = symimg.image(self.ctx, h, w, n, idx + 1, 0, 'float64')
            if 'm' in tok:
                img = np.ma.array(img, mask=symimg.Img((h, w, n), lambda y, x, k: False, bool) if self.ctx.symbolic
                                  else np.zeros((h, w, n), bool))
            leaf = DelayedIdentity(img, channels=CHANS[idx])
        self.leafs.append(leaf)
        return leaf

    def apply(self, node, op):
        ctx = self.ctx
        if op[0] == 'R':
            # a crop with bounds of any kind
            axes = []
            w, h = node.dsize
            chans = [int(i) for i in op.split('#')[1].split(',')] if '#' in op else None
            size = []
            for D in (h, w):
                a = ctx.int(self.name('a'), -2 * HI, 2 * HI) if 'o' not in op else None
                z = ctx.int(self.name('z'), -2 * HI, 2 * HI)
                axes.append(slice(a, z))
                s, e = window(ctx, a, z, D)
                size.append(e - s)
            new = node.crop(tuple(axes), chans)
            ctx.check('declared', ctx.eq(tuple(new.dsize), (size[1], size[0])), lambda: 'crop %s of %s has size %s' % (axes, (w, h), new.dsize))
            return new
        return super().apply(node, op)


def names(node):
    ch = node.channels
    return None if ch is None else list(ch.as_list())


def leaves(node):
    if isinstance(node, DelayedImageLeaf):
        return [node]
    if isinstance(node, DelayedChannelConcat):
        return [l for p in node.parts for l in leaves(p)]
    return leaves(node.subdata)


def missing(final, y, x, k):
    v = symimg.pixel(final, y, x, k)
    if isinstance(v, float) and np.isinf(v):
        raise symimg.Opaque()
    return v is np.ma.masked or symimg.isnan(v)


def alone(ctx, kind, spec, ask=None):
    """a chain over a no-data leaf"""
    b = B(ctx, kind)
    if ctx.symbolic:
        symimg.install()
    node = b.build(spec)
    leaf = b.leafs[0]
    if ask is not None:
        # the kind of the missing pixels is requested later, as finalize(nodata_method=...) does
        node._set_nested_params(nodata_method=ask)
        kind = ask
    W, H = node.dsize
    ctx.assume(ctx.all([W <= 6 * HI, H <= 6 * HI]))
    n = node.num_channels
    opt = node.optimize()
    ctx.check('declared', ctx.eq(tuple(opt.dsize), (W, H)), lambda: 'optimized size %s instead of %s' % (opt.dsize, (W, H)))
    ctx.check('channels', names(opt) == names(node) and opt.num_channels == n, lambda: 'channels %s instead of %s' % (names(opt), names(node)))
    # nothing is left to do but to fill the canvas
    if not any('O' == op[0] for op in spec[1:]):
        ctx.check('leaf', all(type(l) is type(leaf) and l.meta.get('nodata_method') == leaf.meta.get('nodata_method') for l in leaves(opt)),
                  lambda: 'leaves %s' % [type(l).__name__ for l in leaves(opt)])
    with warpmodel.modelled():
        final = opt.finalize(prepare=False, optimize=False)
        plain = node.finalize(prepare=False, optimize=False) if bool(ctx.all([W >= 1, H >= 1])) and 'C0' not in spec and not any(op[0] == 'R' for op in spec[1:]) else None
    oy, ox = ctx.int('oy', 0, 6 * HI), ctx.int('ox', 0, 6 * HI)
    for what, f in (('optimized', final), ('plain', plain)):
        if f is None:
            continue
        ctx.check('declared', ctx.eq(tuple(f.shape), (H, W, n)), lambda: '%s rendering has shape %s instead of %s' % (what, f.shape, (H, W, n)))
        ctx.check('kind', isinstance(f, np.ma.MaskedArray) == (kind == 'ma'), lambda: '%s rendering is %s' % (what, type(f).__name__))
    if not bool(ctx.all([oy < H, ox < W])):
        return
    for what, f in (('optimized', final), ('plain', plain)):
        if f is None:
            continue
        for k in range(n):
            try:
                gone = missing(f, oy, ox, k)
            except symimg.Opaque:
                continue
            ctx.check('missing', gone, lambda: '%s pixel (%s,%s,%s) is %s' % (what, ox, oy, k, symimg.pixel(f, oy, ox, k)))


def joined(ctx, kind, spec, data):
    """no-data channels next to data channels; data: leaf and channel of every output channel (None: no data)"""
    b = B(ctx, kind)
    if ctx.symbolic:
        symimg.install()
    node = b.build(spec)
    w, h = node.dsize
    want_names = names(node)
    oy, ox = ctx.int('oy', 0, 2 * HI), ctx.int('ox', 0, 2 * HI)
    masked = kind == 'ma' and any(d is None for d in data) or any('m' in t[0] for t in spec[0][1:])
    sl = None
    if isinstance(spec[-1], str) and spec[-1][0] == 'C':
        top = node
        while not hasattr(top, 'meta') or 'space_slice' not in top.meta:
            top = top.parts[0] if isinstance(top, DelayedChannelConcat) else top.subdata
        sl = top.meta['space_slice']
    for optimize in (False, True):
        tree = node.optimize() if optimize else node
        ctx.check('channels', names(tree) == want_names, lambda: 'channels %s instead of %s' % (names(tree), want_names))
        with warpmodel.modelled():
            final = tree.finalize(prepare=False, optimize=False)
        ctx.check('declared', ctx.eq(tuple(final.shape), (h, w, len(data))), lambda: 'shape %s instead of %s' % (final.shape, (h, w, len(data))))
        ctx.check('kind', isinstance(final, np.ma.MaskedArray) == bool(masked), lambda: 'rendering is %s' % type(final).__name__)
        if not bool(ctx.all([oy < h, ox < w])):
            continue
        for k, d in enumerate(data):
            if d is None:
                try:
                    gone = missing(final, oy, ox, k)
                except symimg.Opaque:
                    continue
                ctx.check('missing', gone, lambda: 'channel %s is %s' % (k, symimg.pixel(final, oy, ox, k)))
            else:
                y, x = (oy, ox) if sl is None else (oy + sl[0].start, ox + sl[1].start)
                got = symimg.pixel(final, oy, ox, k)
                want = symimg.code(d[0] + 1, 0, y, x, d[1])
                ctx.check('data', symimg.same(ctx, got, want), lambda: 'channel %s is %s instead of %s' % (k, got, want))


ALONE = [
    ['N0'],
    ['N0', 'R'], ['N0', 'Ro'], ['N0', 'R#2,0'], ['N0', 'C#1'], ['N0', 'C0'], ['N0', 'C', 'C'], ['N0', 'R', 'C'],
    ['N0', 'K#2,0'], ['N0', 'K b|a'], ['N0', 'K#1', 'C'], ['N0', 'K c|a', 'R#1'],
    ['N0', W('up15')], ['N0', W('dn3', 'sym')], ['N0', W('rot', 'sym')], ['N0', W('flip', 'sym', 'c')], ['N0', W('id', 'sym')],
    ['N0', W('up2', 'sym', 'n')], ['N0', W('dn2', 'same', 'n')],
    ['N0', 'C', W('up2', 'sym'), 'C'], ['N0', W('rotdn', 'sym'), 'C#2,1'], ['N0', W('up15', 'sym'), W('dn2')],
    ['N0', 'Q'], ['N0', 'C', 'Q'], ['N0', 'Q', W('up15', 'sym')], ['N0', 'K#0,2', 'Q', 'C'],
    ['N0', 'O1'], ['N0', 'C', 'O1'], ['N0', 'O2', 'C'], ['N0', W('dn4', 'sym'), 'C', 'K#1'],
    ['N0i'], ['N0i', 'R'], ['N0i', 'R#2,0'], ['N0i', W('up15', 'sym')], ['N0i', 'C', W('up2', 'sym'), 'K#2,1'], ['N0i', 'K#1', 'Q', 'C'],
    ['N0i', 'C', 'O1', 'K#0,2'], [['cat', ['N0i='], ['N1=']], 'C#3,1'],
    [['cat', ['N0='], ['N1=']], 'C'], [['cat', ['N0='], ['N1=']], W('up2', 'sym'), 'K#4,0'],
    [['cat', ['N0='], ['N1', W('dn2', 'com')]], 'C#3,1'],
]
LATER = [['N0', 'C'], ['N0', W('up15', 'sym')], ['N0', 'K#2,0'], ['N0', 'Q', W('dn2', 'sym'), 'C'],
         [['cat', ['N0='], ['N1=']], 'C#3,1']]
JOINED = [
    ([['cat', ['D0='], ['N1=']]], [(0, 0), (0, 1), (0, 2), None, None]),
    ([['cat', ['N0='], ['D1=']], 'C'], [None, None, None, (1, 0), (1, 1)]),
    ([['cat', ['D0='], ['N1='], ['D2=']], 'K#5,3,0'], [(2, 0), None, (0, 0)]),
    ([['cat', ['D0='], ['N1=', W('up2', 'com')]], 'C'], [(0, 0), (0, 1), (0, 2), None, None]),
    ([['cat', ['D0='], ['N1', W('id', 'com')]], 'K#4,1'], [None, (0, 1)]),
    ([['cat', ['D0m='], ['N1=']], 'C'], [(0, 0), (0, 1), (0, 2), None, None]),
]


def tasks(tier):
    out = []
    for spec, data in JOINED:
        for kind in KINDS if tier == 'thorough' else ['nans', 'float', 'ma']:
            if '0m' in str(spec) and kind != 'ma':
                continue        # the missing channels of a masked image of NaNs are not masked
            out.append(('joined', dict(kind=kind, spec=spec, data=data)))
    for spec in LATER if tier == 'quick' else LATER + ALONE:
        out.append(('alone', dict(kind='ma', spec=spec, ask='float')))
        out.append(('alone', dict(kind='float', spec=spec, ask='ma')))
    for i, spec in enumerate(ALONE):
        for kind in KINDS:
            if tier == 'thorough' or kind in ('nans', 'ma') or i % 5 == KINDS.index(kind):
                out.append(('alone', dict(kind=kind, spec=spec)))
    return out
