"""
Output sizes and transforms of warp, scale, resize and get_overview with
symbolic image sizes, factors, offsets and output sizes: automatic sizes are the
smallest canvas that holds everything at positive coordinates, explicit sizes
are used as given, the reported transform is the requested one, and the corners
of a resized image are the corners of the canvas.  Concatenation requires parts
of equal size.
"""
import kwimage
import numpy as np
from checks import trees
from checks.imglib import Bench
from checks.trees import LIN, mat
from delayed_image.delayed_nodes import DelayedChannelConcat, CoordinateCompatibilityError
from delayed_image.delayed_leafs import DelayedNans
PROPERTY = 'P13'
EXPECT = ['auto-size', 'explicit-size', 'transform', 'resize-corners', 'overview-size', 'concat-size', 'concat-refused', 'options']
BOUNDS = ('image sides in [0,64]; linear parts from checks/trees.py times a symbolic factor in [1/8,4], per axis factors in [1/8,8] '
          '(multiples of 1/8); offsets multiples of 1/4096 in [-80,80]; explicit sizes in [0,96]; overview levels 0..4')
OUTSIDE = ('floating point rounding inside the size computation (numbers with few binary digits only, for which it is exact); '
           'resizing an image with an empty side')
OPTS = dict(time_s=30, max_paths=1500, query_ms=6000)
OPTS_THOROUGH = dict(time_s=300, max_paths=20000)
BUDGET = {'quick': 120, 'thorough': 900}
ALGO = {'interpolation': 'cubic', 'antialias': False, 'border_value': 3, 'noop_eps': 1e-3, 'backend': 'cv2'}


def source(ctx, b, kind, lo=0):
    w, h = ctx.int('w', lo, 64), ctx.int('h', lo, 64)
    if kind == 'cat':
        return DelayedChannelConcat([DelayedNans((w, h), channels='a|b'), b.leaf('F2', 1, (w, h))[0]]), w, h
    if kind == 'crop':
        node, _ = b.leaf('F1', 0, (w, h))
        x0, y0 = ctx.int('x0', 0, 64), ctx.int('y0', 0, 64)
        x1, y1 = ctx.int('x1', 0, 64), ctx.int('y1', 0, 64)
        ctx.assume(ctx.all([x0 + lo <= x1, x1 <= w, y0 + lo <= y1, y1 <= h]))
        return node.crop((slice(y0, y1), slice(x0, x1))), x1 - x0, y1 - y0
    return b.leaf(kind, 0, (w, h))[0], w, h


def parts(node):
    return node.parts if isinstance(node, DelayedChannelConcat) else [node]


def smallest(ctx, got, top, label='auto-size'):
    """got is the smallest size that holds all of the coordinates in top"""
    ctx.check(label, got >= 0, lambda: 'negative size %s' % (got,))
    for v in top:
        ctx.check(label, got >= v, lambda: 'size %s does not hold coordinate %s' % (got, v))
    ctx.check(label, ctx.any([got == 0] + [got < v + 1 for v in top]), lambda: 'size %s is larger than needed for %s' % (got, top))


def same_matrix(ctx, A, B):
    return ctx.all([ctx.close(p, q) for p, q in zip(A, B)])


def transform_of(new, base):
    return mat(new.get_transform_from(base)) if isinstance(new, DelayedChannelConcat) else mat(new.meta['transform'])


def warped(ctx, kind, lin, dsize, factor=None, how='warp', offset=True):
    b = Bench(ctx)
    node, w, h = source(ctx, b, kind)
    # every factor is a case of its own: products of solver variables stay linear
    f = 1.0 if factor is None else factor
    a, c, d, e = [v * f for v in LIN[lin]]
    tx = ctx.dyadic('tx', -80, 80, 4096) if offset else 0.0
    ty = ctx.dyadic('ty', -80, 80, 4096) if offset else 0.0
    M = np.array([[a, c, tx], [d, e, ty], [0.0, 0.0, 1.0]])
    T = kwimage.Affine.coerce(M)
    kw = {}
    if dsize == 'sym':
        kw['dsize'] = (ctx.int('dw', 0, 96), ctx.int('dh', 0, 96))
    elif dsize == 'auto':
        kw['dsize'] = 'auto'
    kw.update(ALGO)
    new = node.warp(M if how == 'matrix' else T, **kw)
    ctx.check('transform', same_matrix(ctx, transform_of(new, node), (a, c, tx, d, e, ty)), lambda: 'transform %s' % (new.meta,))
    W, H = new.dsize
    if dsize == 'sym':
        ctx.check('explicit-size', ctx.eq((W, H), kw['dsize']), lambda: 'declared %s' % (new.dsize,))
    else:
        corners = [(0, 0), (w, 0), (0, h), (w, h)]
        smallest(ctx, W, [a * x + c * y + tx for x, y in corners])
        smallest(ctx, H, [d * x + e * y + ty for x, y in corners])
    ctx.check('auto-size', ctx.eq(tuple(new.shape[0:2]), (H, W)))
    ctx.check('options', all(new.meta[k] == v for k, v in ALGO.items()), lambda: '%s' % (new.meta,))


def scaled(ctx, kind, sx, sy, dsize):
    """the factors are fixed, everything else is symbolic"""
    b = Bench(ctx)
    node, w, h = source(ctx, b, kind)
    kw = dict(ALGO)
    if dsize == 'sym':
        kw['dsize'] = (ctx.int('dw', 0, 96), ctx.int('dh', 0, 96))
    new = node.scale(sx if sy is None else (sx, sy), **kw)
    sy = sx if sy is None else sy
    ctx.check('transform', same_matrix(ctx, transform_of(new, node), (sx, 0, 0, 0, sy, 0)), lambda: 'transform %s' % (new.meta,))
    if dsize == 'sym':
        ctx.check('explicit-size', ctx.eq(tuple(new.dsize), kw['dsize']), lambda: 'declared %s' % (new.dsize,))
    else:
        smallest(ctx, new.dsize[0], [0, w * sx])
        smallest(ctx, new.dsize[1], [0, h * sy])
    ctx.check('options', all(new.meta[k] == v for k, v in ALGO.items()), lambda: '%s' % (new.meta,))


def scale_by(ctx, kind):
    """a symbolic factor per axis"""
    b = Bench(ctx)
    node, w, h = source(ctx, b, kind)
    ctx.assume(ctx.all([w <= 16, h <= 16]))
    sx, sy = ctx.dyadic('sx', 0.125, 8, 8), ctx.dyadic('sy', 0.125, 8, 8)
    new = node.scale((sx, sy))
    ctx.check('transform', same_matrix(ctx, transform_of(new, node), (sx, 0, 0, 0, sy, 0)), lambda: 'transform %s' % (new.meta,))
    smallest(ctx, new.dsize[0], [0, w * sx])
    smallest(ctx, new.dsize[1], [0, h * sy])


def resized(ctx, kind, fixed=None):
    b = Bench(ctx)
    node, w, h = source(ctx, b, kind, lo=1)
    W, H = ctx.int('dw', 0, 96), ctx.int('dh', 0, 96)
    if fixed:
        w_, h_ = fixed
        ctx.assume(ctx.all([w == w_, h == h_]))
    ctx.assume(ctx.all([W > 0, H > 0]))
    new = node.resize((W, H), **ALGO)
    ctx.check('explicit-size', ctx.eq(tuple(new.dsize), (W, H)), lambda: 'declared %s' % (new.dsize,))
    T = transform_of(new, node)
    x, y = trees.fwd(T, w, h)
    ctx.check('resize-corners', ctx.all([ctx.close(x, W, 1e-4), ctx.close(y, H, 1e-4)]), lambda: 'far corner at %s of %s' % ((x, y), (W, H)))
    ctx.check('resize-corners', ctx.all([ctx.close(v, 0) for v in (T[1], T[2], T[3], T[5])]), lambda: 'transform %s' % (T,))
    ctx.check('options', all(new.meta[k] == v for k, v in ALGO.items()), lambda: '%s' % (new.meta,))


def overview(ctx, kind, levels):
    b = Bench(ctx)
    node, w, h = source(ctx, b, kind)
    new = node
    for k in levels:
        prev = new
        new = new.get_overview(k)
        d = 1 << k
        W, H = new.dsize
        for got, size in ((W, w), (H, h)):
            ctx.check('overview-size', ctx.all([got * d >= size, (got - 1) * d < size]), lambda: 'overview %d of size %s declares %s' % (k, size, got))
        w, h = W, H
        ctx.check('overview-size', ctx.eq(tuple(new.shape[0:2]), (H, W)))
        n1, n0 = new.num_overviews, prev.num_overviews
        ctx.check('overview-size', n1 is None or n0 is None or n1 == n0 - k or n1 == 0 >= n0 - k, lambda: '%s overviews left of %s' % (n1, n0))
    total = 1 << sum(levels)
    if not isinstance(node, DelayedChannelConcat):
        ctx.check('transform', same_matrix(ctx, mat(new.get_transform_from(node)), (1 / total, 0, 0, 0, 1 / total, 0)))


def join(ctx, kinds):
    b = Bench(ctx)
    nodes, sizes = [], []
    for i, kind in enumerate(kinds):
        n, p = b.leaf(kind, i)
        if i == 1:      # through an operation
            n = n.scale(2)
            p.w, p.h = 2 * p.w, 2 * p.h
        nodes.append(n)
        sizes.append((p.w, p.h))
    ok = ctx.all([ctx.eq(sizes[0], s) for s in sizes[1:]])
    try:
        node = DelayedChannelConcat(nodes)
    except CoordinateCompatibilityError:
        ctx.check('concat-refused', ctx.not_(ok), lambda: 'parts of sizes %s were refused' % (sizes,))
        return
    ctx.check('concat-size', ok, lambda: 'parts of sizes %s were accepted' % (sizes,))
    ctx.check('concat-size', ctx.eq(tuple(node.dsize), sizes[0]))
    n = sum(x.num_channels for x in nodes)
    ctx.check('concat-size', ctx.eq(tuple(node.shape), (sizes[0][1], sizes[0][0], n)))


def tasks(tier):
    out = []
    kinds = ['F2', 'cat', 'crop', 'I', 'N']
    for i, lin in enumerate(LIN):
        out.append(('warped', dict(kind=kinds[i % 3], lin=lin, dsize='auto', how='matrix' if i % 2 else 'warp')))
        if i % 3 == 0 or tier == 'thorough':
            out.append(('warped', dict(kind=kinds[i % 5], lin=lin, dsize='sym', factor=0.75)))
            out.append(('warped', dict(kind=kinds[i % 5], lin=lin, dsize='', factor=1.25)))
    fs = [(0.5, None), (2, None), (0.125, 4), (1.5, 0.375), (1, 1), (3, None), (0.625, 0.25)]
    for i, (sx, sy) in enumerate(fs):
        out.append(('scaled', dict(kind=kinds[i % 4], sx=sx, sy=sy, dsize='auto')))
        if i % 2 == 0 or tier == 'thorough':
            out.append(('scaled', dict(kind=kinds[i % 4], sx=sx, sy=sy, dsize='sym')))
    for k in ['F', 'cat', 'crop']:
        out.append(('resized', dict(kind=k)))
        out.append(('scale_by', dict(kind=k)))
    out.append(('resized', dict(kind='F', fixed=[7, 48])))
    for k, ls in [('F', [1]), ('F', [2, 1]), ('crop', [3]), ('cat', [1]), ('cat', [2, 2]), ('I', [4]), ('N', [1]), ('F4', [0, 1, 2]), ('crop', [1, 1])]:
        out.append(('overview', dict(kind=k, levels=ls)))
    for ks in [['F', 'I'], ['I', 'F', 'N'], ['N', 'N']]:
        out.append(('join', dict(kinds=ks)))
    if tier == 'thorough':
        for k in kinds:
            for lin in LIN:
                for f in (0.125, 0.375, 1.75, 3):
                    out.append(('warped', dict(kind=k, lin=lin, dsize='auto', factor=f)))
    return out
