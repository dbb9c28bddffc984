"""
Rendering whole trees: every pixel of the optimized and of the plain rendering
shows the source position that the composition of the operations says.
"""
import numpy as np
from checks import configs
from checks.trees import W, QUANT, Builder, compose, fwd, invert, inv_point, meaning
from fractions import Fraction
from vlib import sym, symimg, warpmodel
from vlib.symimg import Img, Ref, ceil_half
from delayed_image.delayed_leafs import DelayedLoad, DelayedNans
PROPERTY = 'P24'
EXPECT = ['shape', 'kind', 'inside', 'outside', 'options', 'nearest']
BOUNDS = ('the chains of checks/configs.py and this file; image sides in [2,40], crop windows any non-empty window, warp offsets every '
          'multiple of 1/4 in [-12,12], canvas sides in [1,40] or automatic, 0 to 3 stored overviews; every output pixel and channel whose '
          'neighbourhood lies inside of the source and of all windows of the chain, or clearly outside of the source')
OUTSIDE = ('pixels close to the edge of the source or of a window; simulated overviews (of data without stored overviews: sampled with up '
           'to one pixel of displacement) are checked for shape, kind and options only; nearest resampling may differ by less than one output '
           'pixel from the exact position (three where the library resizes), chains with several nearest warps; antialiasing blur; '
           'content that is not linear in the position')
STUBS = symimg.STUBS + ['kwimage.warp_affine, kwimage.imresize: vlib/warpmodel.py (positions, border and options, also in replays)',
                        'stored overview k shows at pixel (x,y) the source position ((x+1/2)2^k-1/2, (y+1/2)2^k-1/2)']
OPTS = dict(time_s=20, max_paths=300, query_ms=5000)
OPTS_THOROUGH = dict(time_s=240, max_paths=6000, query_ms=20000)
BUDGET = {'quick': 110, 'thorough': 3000}
HI = 40
LEAF, CH, ROW = 16384, 4096, 64


def value(leaf, y, x, c):
    return LEAF * (leaf + 1) + CH * c + ROW * y + x


def along_x(leaf, y, x, c):
    return LEAF * (leaf + 1) + CH * c + x


def along_y(leaf, y, x, c):
    return LEAF * (leaf + 1) + CH * c + y


def stored(ctx, leaf, idx, masked, value=value):
    w, h = leaf.dsize
    n = leaf.num_channels
    levels = []
    for k in range((leaf.meta['num_overviews'] or 0) + 1):
        s = 1 << k
        H, W = ceil_half(h, k), ceil_half(w, k)
        if ctx.symbolic:
            def at(y, x, c, s=s):
                return value(idx, (y + 0.5) * s - 0.5, (x + 0.5) * s - 0.5, c)
            a = Img((H, W, n), at, 'float64')
            if masked:
                a = np.ma.array(a, mask=Img(a.shape, lambda *i: False, bool))
        else:
            y, x, c = np.mgrid[0:int(H), 0:int(W), 0:n]
            a = value(idx, (y + 0.5) * s - 0.5, (x + 0.5) * s - 0.5, c).astype('float64')
            if masked:
                a = np.ma.array(a, mask=np.zeros(a.shape, bool))
        levels.append(a)
    leaf.lazy_ref = Ref(levels)


def extent(M):
    return abs(M[0]) + abs(M[1]), abs(M[3]) + abs(M[4])


def surely_inside(ctx, c, x, y):
    """the pixel and everything that resampling may read lies in the leaf and all windows"""
    lw, lh = c.leaf.dsize
    frames = [((1.0, 0.0, 0.0, 0.0, 1.0, 0.0), 0, 0, lw, lh)] + [v[:5] for v in c.windows]
    back = invert(c.T)
    steps = [f[0] for f in frames] + [c.T]
    conds = []
    for i, (T, x0, y0, x1, y1) in enumerate(frames):
        px, py = fwd(compose(T, back), x, y)
        mx = my = 1.0
        for U in steps[i:]:
            ex, ey = extent(compose(T, invert(U)))
            mx, my = mx + ex, my + ey
        # an overview pixel is as large as 2^k leaf pixels
        k = 1 << max([0] + c.overview_steps + [3 if i == 0 and c.warps else 0])
        mx, my = mx * 1.0 + (k if c.warps and i == 0 else 0), my * 1.0 + (k if c.warps and i == 0 else 0)
        conds += [px >= x0 + mx, px <= x1 - mx, py >= y0 + my, py <= y1 - my]
    return conds


def render(ctx, spec, mirror=False, masked=False, optimize=True, public=None):
    b = Builder(ctx, lo=2, hi=HI, mirror=mirror)
    if ctx.symbolic:
        symimg.install()
    node = b.build(spec)
    for leaf in b.leafs:
        if isinstance(leaf, DelayedLoad):
            stored(ctx, leaf, b.leafs.index(leaf), masked)
    W, H = node.dsize
    ctx.assume(ctx.all([W >= 1, H >= 1, W <= 4 * HI, H <= 4 * HI]))
    chans = meaning(node)
    n = len(chans)
    with warpmodel.modelled() as model:
        if public is not None:
            final = node.finalize(optimize=optimize, **public)
        else:
            final = node.finalize(prepare=False, optimize=optimize)
    shape = tuple(final.shape)
    ctx.check('shape', len(shape) == 3 and ctx.eq(shape, (H, W, n)), lambda: 'rendered %s, declared %s' % (shape, (H, W, n)))
    nans = all(c.nan for c in chans)
    ctx.check('kind', isinstance(final, np.ma.MaskedArray) == bool(masked and not nans) or any(c.nan for c in chans) and not nans,
              'mask lost or invented')
    for entry in model.log:
        if public:
            want = dict(interpolation=public.get('interpolation', 'linear'), antialias=None)
            ctx.check('options', entry['interpolation'] == want['interpolation'], lambda: 'interpolation %s' % entry['interpolation'])
            if public.get('antialias') is False:
                ctx.check('options', not entry['antialias'])
        if entry['call'] == 'warp_affine' and chans and not public:
            asked = [wp['interpolation'] for c in chans for wp in c.warps]
            ctx.check('options', entry['interpolation'] in asked or any(c.overviews for c in chans), lambda: 'interpolation %s' % entry['interpolation'])
    exact = all(e['call'] != 'imresize' for e in model.log) and not any('nearest' == e['interpolation'] for e in model.log)
    if not exact:
        return
    oy, ox = ctx.int('oy', 0, HI), ctx.int('ox', 0, HI)
    ctx.assume(ctx.all([oy < H, ox < W]))
    data = final.data if isinstance(final, np.ma.MaskedArray) else final
    for k, c in enumerate(chans):
        if c.nan:
            where = 'inside'
        elif not c.warps:
            where = 'inside'        # whole pixels: every one is exact
            if c.overviews and not optimize:
                where = None if not bool(ctx.all(surely_inside(ctx, c, ox + 0.5, oy + 0.5))) else where
        elif bool(ctx.all(surely_inside(ctx, c, ox + 0.5, oy + 0.5))):
            where = 'inside'
        else:
            lw, lh = c.leaf.dsize
            back = invert(c.T)
            px, py = inv_point(c.T, ox + 0.5, oy + 0.5)
            ex, ey = extent(back)
            g = (1 << 3) + 2
            far = ctx.any([px <= -g - 2 * ex, px >= lw + g + 2 * ex, py <= -g - 2 * ey, py >= lh + g + 2 * ey])
            where = 'outside' if len(c.warps) == 1 and c.warps[0]['border_value'] == 'auto' and bool(far) else None
        if where is None:
            continue
        try:
            got = symimg.pixel(data, oy, ox, k)
        except symimg.Opaque:
            ctx.reach('undetermined')
            continue
        if not ctx.symbolic and isinstance(got, float) and np.isinf(got):
            continue
        if where == 'outside' or c.nan:
            want = symimg.MISSING
        else:
            px, py = inv_point(c.T, ox + 0.5, oy + 0.5)
            want = value(b.leafs.index(c.leaf), py - 0.5, px - 0.5, c.index)
            if any(e[0] == 'dequantize' for e in c.events if isinstance(e, tuple)):
                q = QUANT
                want = (want - q['quant_min']) * ((q['orig_max'] - q['orig_min']) / (q['quant_max'] - q['quant_min'])) + q['orig_min']
                want, got = want * 255, got * 255
        ctx.check(where, symimg.same(ctx, got, want, 0.06),
                  lambda: 'pixel (%s,%s) channel %s is %s instead of %s' % (ox, oy, k, got, want))


def nothing_valid(ctx, c, oy, ox):
    """`mask.any()` was assumed to be false: then the mask is false too at the pixel
    of each canvas below that is shown at (ox, oy)"""
    never = sym.cur().never if ctx.symbolic else []
    back = invert(c.T)
    for T in [v[0] for v in c.windows]:
        a, b, tx, d, e, ty = compose(T, back)
        if not all(isinstance(v, (int, float, Fraction)) and abs(v - want) < 1e-9 for v, want in zip((a, b, d, e), (1, 0, 0, 1))):
            continue
        x, y = ctx.floor(ox + tx + 0.25), ctx.floor(oy + ty + 0.25)
        for g in never:
            if bool(g.at(*(y, x, 0)[:g.ndim])):
                raise sym.PathEnd('assumption')


def nearest(ctx, spec, axis, mirror=False, masked=False, optimize=True):
    """one nearest resampling per channel: every pixel is a whole source pixel (of
    the level that is read) of the right channel, close to the exact position"""
    b = Builder(ctx, lo=2, hi=HI, mirror=mirror)
    if ctx.symbolic:
        symimg.install()
    node = b.build(spec)
    content = along_x if axis == 'x' else along_y
    for leaf in b.leafs:
        if isinstance(leaf, DelayedLoad):
            stored(ctx, leaf, b.leafs.index(leaf), masked, content)
    W, H = node.dsize
    ctx.assume(ctx.all([W >= 1, H >= 1, W <= 4 * HI, H <= 4 * HI]))
    chans = meaning(node)
    if optimize:
        node = node.optimize()
    read = meaning(node)
    with warpmodel.modelled() as model:
        final = node.finalize(prepare=False, optimize=False)
    shape = tuple(final.shape)
    ctx.check('shape', len(shape) == 3 and ctx.eq(shape, (H, W, len(chans))), lambda: 'rendered %s, declared %s' % (shape, (H, W, len(chans))))
    for entry in model.log:
        ctx.check('options', entry['interpolation'] in ('nearest', 0) and not entry['antialias'],
                  lambda: 'interpolation %s antialias %s' % (entry['interpolation'], entry['antialias']))
    resized = any(e['call'] == 'imresize' for e in model.log)
    oy, ox = ctx.int('oy', 0, HI), ctx.int('ox', 0, HI)
    ctx.assume(ctx.all([oy < H, ox < W]))
    data = final.data if isinstance(final, np.ma.MaskedArray) else final
    for k, c in enumerate(chans):
        if not bool(ctx.all(surely_inside(ctx, c, ox + 0.5, oy + 0.5))):
            continue
        nothing_valid(ctx, read[k], oy, ox)
        try:
            got = symimg.pixel(data, oy, ox, k)
        except symimg.Opaque:
            ctx.reach('undetermined')
            continue
        if any(e[0] == 'dequantize' for e in c.events if isinstance(e, tuple)):
            got = got * 255
        ctx.check('nearest', not (isinstance(got, (float, np.floating)) and np.isnan(got)), 'no pixel')
        v = got - content(b.leafs.index(c.leaf), 0, 0, c.index) + 0.5
        px, py = inv_point(c.T, ox + 0.5, oy + 0.5)
        ex, ey = extent(invert(c.T))
        p, r = (px, ex) if axis == 'x' else (py, ey)
        r = r / 2 * (3 if resized else 1) + (1 << read[k].overviews) / 2 + 1e-4
        ctx.check('nearest', ctx.all([v >= p - r, v <= p + r]),
                  lambda: 'pixel (%s,%s) channel %s shows source position %s=%s instead of one near %s' % (ox, oy, k, axis, v, p))


NEAREST = [
    ['L0', W('up2', 'sym', 'n'), 'C'],
    ['L0', W('dn3', 'sym', 'n'), 'C'],
    ['L0', W('id', 'sym', 'n'), 'C'],
    ['L0', 'C', W('up15', 'sym', 'n')],
    ['L0', 'C', W('dn2', 'sym', 'n'), 'C'],
    ['L0', 'Q', W('dn2', 'sym', 'n'), 'C'],
    ['L0', W('dn3', 'sym', 'n'), 'Q'],
    ['L0', W('up2', 'sym', 'n'), 'C#2,0'],
    ['L0', 'K#2,0', W('rot', 'sym', 'n'), 'C'],
    ['L0', W('flip', 'sym', 'n'), 'C'],
    ['L0o2', W('dn4', 'sym', 'n')],
    ['L0o2', 'C', W('dn4', 'sym', 'n')],
    ['L0o2', W('dn3', 'sym', 'n'), 'C'],
    ['L0o2', 'O1', W('up2', 'sym', 'n')],
    ['L0o2', 'O1', 'C', W('up15', 'sym', 'n')],
    ['L0o2', W('dnx', 'sym', 'n'), 'C'],
    [['cat', ['L0='], ['L1=']], W('up15', 'sym', 'n'), 'C'],
    [['cat', ['L0='], ['L1', W('dn2', 'com', 'n')]], 'C'],
    ['L0', W('up2', 'sym', 'i'), 'C'],
    ['L0', 'C', W('dn3', 'sym', 'i')],
]
MASKED = [
    ['L0', 'C', W('up15', 'sym')],
    ['L0o2', 'O1', 'C'],
    ['L0o2', 'C', W('dn4', 'sym')],
    ['L0', 'K#2,0', 'Q'],
    ['L0', W('up2', 'sym'), 'C', 'Q'],
    [['cat', ['L0='], ['L1=']], 'C'],
    [['cat', ['L0='], ['L1=']], W('up15', 'sym')],
    [['cat', ['N0='], ['L1=']], 'K#3,1'],
    ['L0', 'C', 'O1'],
]
INDEPENDENT = [
    ['L0', 'C', 'C', 'C'],
    ['L0', 'C#2,0'],
    ['L0o2', 'C', W('up15')],
    ['L0o2', 'O1', 'C'],
    ['L0o2', 'C', 'O1'],
    ['L0o2', 'C', W('dnx', 'sym')],
    ['L0', W('shear', 'sym'), 'C'],
]
PUBLIC = [
    (['L0', W('up2'), 'C', W('dn3')], dict(interpolation='cubic')),
    (['L0', 'C', W('dn3', 'sym')], dict(antialias=False)),
    ([['cat', ['L0='], ['L1', W('dn2', 'com')]], W('up15')], dict(interpolation='cubic', antialias=False)),
    (['L0', W('rot', 'sym', 'c')], dict(interpolation='linear')),
]


# one band, which files deliver without a channel axis
SINGLE = [['L2'], ['L2', 'C'], ['L2', W('id', 'sym')], ['L2', 'Q'], ['L2o2', 'O1'], ['L2o2', 'O1', 'O1'], ['L2o2', 'O2', 'C'], ['L2', 'O1'], ['L2', 'C#0,0'],
          ['L2o2', W('dn4', 'auto')], ['L2o2', 'C', 'O1'], ['L2o2', 'O1', 'Q'], [['cat', ['L2=']]], [['cat', ['L2o2=', 'O1']], 'C'],
          [['cat', ['L2='], ['L0=']], 'K#0'], [['cat', ['L2='], ['N1=']]]]


def tasks(tier):
    specs = configs.LONG + configs.CAT + configs.CHAN + configs.singles() + configs.pairs(configs.OPS, 'L0o2')
    if tier == 'thorough':
        specs = specs + configs.deep()
    specs = configs.dedup(specs)
    out = []
    for spec, kw in PUBLIC:
        for o in (True, False):
            out.append(('render', dict(spec=spec, mirror=True, optimize=o, public=kw)))
    for spec in MASKED:
        for o in (True, False):
            out.append(('render', dict(spec=spec, mirror=True, masked=True, optimize=o)))
    for spec in NEAREST:
        for o in (True, False):
            for axis in 'xy' if tier == 'thorough' else 'x' if o else 'y':
                out.append(('nearest', dict(spec=spec, axis=axis, mirror=True, optimize=o)))
    if tier == 'thorough':
        out += [('nearest', dict(spec=spec, axis=axis)) for spec in NEAREST for axis in 'xy']
        out += [('nearest', dict(spec=spec, axis='x', mirror=True, masked=True)) for spec in NEAREST]
    for spec in SINGLE:
        for o in (True, False):
            out.append(('render', dict(spec=spec, mirror=True, optimize=o)))
        if 'cat' not in spec[0] and 'Q' not in spec and spec != ['L2', 'O1']:
            out.append(('render', dict(spec=spec, mirror=True, masked=True)))
    # first the same symbols on both axes (few paths), then independent axes
    out += [('render', dict(spec=s, mirror=True)) for s in specs]
    for spec in specs:
        if configs.is_long(spec) or tier == 'thorough':
            out.append(('render', dict(spec=spec, mirror=True, optimize=False)))
    for spec in specs:
        if len(spec) == 2 or spec in INDEPENDENT or tier == 'thorough':
            out.append(('render', dict(spec=spec)))
    return out
