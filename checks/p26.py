"""
Results taken out of a tree: `evaluate` (a new leaf that holds the rendered data)
and `as_xarray` (a labelled array), after operations with symbolic windows and
channel selections.
"""
import numpy as np
from checks.imglib import Bench, cat, declared, window
from vlib import symimg
from delayed_image.delayed_leafs import DelayedIdentity
from delayed_image.delayed_nodes import DelayedChannelConcat
PROPERTY = 'P26'
EXPECT = ['declared', 'evaluated', 'later', 'later-declared', 'own-leaf', 'xarray', 'labels', 'unchanged', 'transform', 'masked']
BOUNDS = ('image sides in [1,48]; any non-empty window; channel lists from the table in checks/p26.py; leaves: in-memory array, with '
          'masks, with and without channel names, file with stored overviews, no-data, concatenations; every pixel')
OUTSIDE = 'operations on top of an xarray cast (they give plain arrays); trees without a known size'
STUBS = symimg.STUBS + ['xarray.DataArray during the exploration: keeps data, dims and coords, masked pixels are NaN']
OPTS = dict(time_s=30, max_paths=1500, query_ms=6000)
OPTS_THOROUGH = dict(time_s=300, max_paths=20000)
BUDGET = {'quick': 120, 'thorough': 900}


class Labelled:
    def __init__(self, data, coords=None, dims=None, name=None, attrs=None):
        if isinstance(data, np.ma.MaskedArray):
            def at(y, x, k, data=data):
                v = symimg.pixel(data, y, x, k)
                return symimg.MISSING if v is np.ma.masked else v
            data = symimg.Img(data.shape, at, 'float64')
        self.values = data
        self.shape = data.shape
        self.dims = tuple(dims)
        if len(self.dims) != len(data.shape):
            raise ValueError('different number of dimensions on data and dims')
        self.coords = dict(coords or {})
        for k, v in self.coords.items():
            n = data.shape[self.dims.index(k)]
            if not bool(len(v) == n):
                raise ValueError('conflicting sizes for dimension %r' % k)

    def __getitem__(self, key):
        assert key == slice(None)
        return self


def start(ctx, b, leaf, masked=False, kept=True):
    if leaf == 'cat':
        n1, p1 = b.leaf('I', 0)
        n2, p2 = b.leaf('F', 1, (p1.w, p1.h))
        return DelayedChannelConcat([n1, n2]), cat([p1, p2])
    if leaf == 'catN':
        n1, p1 = b.leaf('I', 0, dtype='float64')
        n2, p2 = b.leaf('N', 1, (p1.w, p1.h))
        return DelayedChannelConcat([n1, n2]), cat([p1, p2])
    if leaf == 'gray':
        node, pic = b.leaf('I', 2)
        node.data = node.data[:, :, 0]
        return node, pic
    if leaf == 'grayu':
        w, h = b.size()
        pic_node, pic = b.leaf('I', 2, (w, h))
        node = DelayedIdentity(pic_node.data[:, :, 0])
        pic.names = None
        return node, pic
    node, pic = b.leaf(leaf, 0)
    if masked:
        # one column is masked
        col = ctx.int('masked_column', 0, b.hi)
        at = pic.at
        pic.at = lambda y, x, k: (np.ma.masked if kept else symimg.MISSING) if bool(x == col) else at(y, x, k)
        if ctx.symbolic:
            mask = symimg.Img(node.data.shape, lambda y, x, k: x == col, bool)
        else:
            mask = np.zeros(node.data.shape, bool)
            mask[:, [i for i in [int(col)] if i < mask.shape[1]]] = True
        node.data = np.ma.array(node.data, mask=mask)
    return node, pic


def step(ctx, b, node, pic, op):
    if op == 's':
        x0, y0 = ctx.int(b.name('x0_'), 0, b.hi), ctx.int(b.name('y0_'), 0, b.hi)
        x1, y1 = ctx.int(b.name('x1_'), 0, b.hi), ctx.int(b.name('y1_'), 0, b.hi)
        ctx.assume(ctx.all([x0 < x1, x1 <= pic.w, y0 < y1, y1 <= pic.h]))
        return node[y0:y1, x0:x1], pic.crop(y0, y1, x0, x1)
    idx = [int(v) for v in op[1:].split(',')]
    return node.take_channels(idx), pic.take(idx)


def run(ctx, leaf, ops, then, masked=False):
    b = Bench(ctx)
    node, pic = start(ctx, b, leaf, masked)
    for op in ops:
        node, pic = step(ctx, b, node, pic, op)
    declared(ctx, node, pic, 'declared')
    new = node.evaluate()
    declared(ctx, new, pic, 'evaluated')
    ctx.check('own-leaf', len(list(new.children())) == 0 and list(new.leafs()) == [new] and new is not node)
    T = new.get_transform_from_leaf()
    ctx.check('own-leaf', bool(np.allclose(np.asarray(T), np.eye(3))))
    for op in then:
        new, pic = step(ctx, b, new, pic, op)
    declared(ctx, new, pic, 'later-declared')
    final = new.finalize()
    oy, ox = ctx.int('oy', 0, b.hi), ctx.int('ox', 0, b.hi)
    ctx.assume(ctx.all([oy < pic.h, ox < pic.w]))
    if len(final.shape) == 2:
        final = final[:, :, None]
    b.look(final, pic, 'later')
    ctx.check('masked', isinstance(final, np.ma.MaskedArray) == masked)
    b.pixels(final, pic, 'later', oy, ox)


def label(ctx, leaf, ops, optimize, masked=False):
    import xarray
    b = Bench(ctx)
    node, pic = start(ctx, b, leaf, masked, kept=False)
    for op in ops:
        node, pic = step(ctx, b, node, pic, op)
    new = node.as_xarray()
    declared(ctx, new, pic, 'declared')
    declared(ctx, new.optimize(), pic, 'declared')
    if not leaf.startswith('cat'):
        a, c = np.asarray(new.get_transform_from_leaf()), np.asarray(node.get_transform_from_leaf())
        ctx.check('transform', ctx.all([ctx.close(u, v) for u, v in zip(a.ravel(), c.ravel())]))
    if ctx.symbolic:
        with symimg.replaced(xarray, 'DataArray', Labelled):
            final = new.finalize(optimize=optimize)
    else:
        final = new.finalize(optimize=optimize)
        ctx.check('xarray', isinstance(final, xarray.DataArray))
    ctx.check('labels', tuple(final.dims) == ('y', 'x', 'c'), lambda: 'dimensions %s' % (final.dims,))
    if pic.names is None:
        ctx.check('labels', 'c' not in final.coords)
    else:
        got = final.coords['c']
        got = list(got) if ctx.symbolic else got.values.tolist()
        ctx.check('labels', got == pic.names, lambda: 'labels %s instead of %s' % (got, pic.names))
    ctx.check('labels', set(final.coords) <= {'c'})
    data = final.values
    b.look(data, pic, 'xarray')
    oy, ox = ctx.int('oy', 0, b.hi), ctx.int('ox', 0, b.hi)
    ctx.assume(ctx.all([oy < pic.h, ox < pic.w]))
    b.pixels(data, pic, 'xarray', oy, ox)
    ctx.check('unchanged', ctx.eq(tuple(node.shape), (pic.h, pic.w, pic.n)))


def tasks(tier):
    R, L = 'run', 'label'
    out = []
    for leaf in ('I', 'Iu', 'F1', 'N', 'gray', 'grayu'):
        chan = [] if leaf.startswith('gray') else ['#2,0']
        out.append((R, dict(leaf=leaf, ops=[], then=['s'])))
        out.append((R, dict(leaf=leaf, ops=['s'], then=['s'] + chan[:1])))
        out.append((L, dict(leaf=leaf, ops=['s'], optimize=True)))
        out.append((L, dict(leaf=leaf, ops=[], optimize=False)))
        if chan:
            out.append((R, dict(leaf=leaf, ops=['#1,0', 's'], then=['#1'])))
            out.append((R, dict(leaf=leaf, ops=['#1,1,0'], then=['s', '#2,0'])))
            out.append((L, dict(leaf=leaf, ops=['#2,0,2', 's'], optimize=True)))
            out.append((L, dict(leaf=leaf, ops=['s', '#2,0'], optimize=True)))
            out.append((L, dict(leaf=leaf, ops=['#1', 's'], optimize=False)))
    for m in ('I', 'Iu'):
        out.append((R, dict(leaf=m, ops=['s'], then=['#1'], masked=True)))
        out.append((L, dict(leaf=m, ops=['s'], optimize=True, masked=True)))
        out.append((L, dict(leaf=m, ops=['#1,2'], optimize=False, masked=True)))
    for leaf in ('cat', 'catN'):
        for o in (True, False):
            out.append((L, dict(leaf=leaf, ops=[], optimize=o)))
            out.append((L, dict(leaf=leaf, ops=['s'], optimize=o)))
        out.append((L, dict(leaf=leaf, ops=['#4,0', 's'], optimize=True)))
    if tier == 'thorough':
        for leaf in ('I', 'F1', 'N', 'Iu'):
            out.append((R, dict(leaf=leaf, ops=['s', 's', '#2,1'], then=['s', '#0', 's'])))
            out.append((L, dict(leaf=leaf, ops=['s', '#2,1', 's', '#0,0'], optimize=True)))
    return out
