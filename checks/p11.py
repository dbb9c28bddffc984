"""
The lazy flags: with lazy=True an operation may return its input, but only when
the operation would not have changed anything; otherwise the result is the one
of the plain call.  Crops: symbolic windows (missing, negative, beyond the
edge, padded) and channel selections, compared with the plain result by
declaration and content.  Warps: symbolic transforms and output sizes, compared
by declaration and by their leaf transform.
"""
from checks.imglib import Bench, cat, declared
from checks.chanlib import Spec
from checks.p10 import make, tree
from checks.trees import LIN, mat
from delayed_image.delayed_nodes import DelayedChannelConcat
from vlib import symimg
import numpy as np
PROPERTY = 'P11'
EXPECT = ['same-declaration', 'same-content', 'same-transform', 'noop-returns-self', 'kept-self']
BOUNDS = ('image sides in [1,48]; every slice bound None or any integer in [-96,96]; padding in [0,16]; warps: matrices of '
          'checks/trees.py times a symbolic scale, offsets multiples of 1/4 in [-12,12], output size auto or any pair in [0,60]')
OUTSIDE = ('transforms that differ from the identity by less than the tolerance of kwimage (1e-8 absolute, 1e-5 relative): '
           'those count as the identity; slices with a step')
STUBS = symimg.STUBS
OPTS = dict(time_s=45, max_paths=4000, query_ms=6000)
OPTS_THOROUGH = dict(time_s=400, max_paths=60000)
BUDGET = {'quick': 120, 'thorough': 1500}


def same_declaration(ctx, a, b):
    ctx.check('same-declaration', ctx.eq(tuple(a.shape), tuple(b.shape)), lambda: 'shape %s instead of %s' % (a.shape, b.shape))
    ctx.check('same-declaration', ctx.eq(tuple(a.dsize), tuple(b.dsize)))
    na, nb = [None if n.channels is None else list(n.channels.as_list()) for n in (a, b)]
    ctx.check('same-declaration', na == nb, lambda: 'channels %s instead of %s' % (na, nb))


def base(ctx, b, leaf):
    if leaf == 'cat':
        n1, p1 = b.leaf('I', 0)
        n2, p2 = b.leaf('F', 1, (p1.w, p1.h))
        return DelayedChannelConcat([n1, n2]), cat([p1, p2])
    return b.leaf(leaf, 0)


def crop(ctx, leaf, space='xy', chans=None, pad=None):
    b = Bench(ctx)
    node, pic = base(ctx, b, leaf)
    sl = None
    kw = {}
    if space:
        if pad is None:
            xs = (b.bound('x0_', pic.w), b.bound('x1_', pic.w)) if 'x' in space else (None, None)
            ys = (b.bound('y0_', pic.h), b.bound('y1_', pic.h)) if 'y' in space else (None, None)
        else:
            xs = [ctx.int('x0', -8, 60), ctx.int('x1', -8, 60)]
            ys = [ctx.int('y0', -8, 60), ctx.int('y1', -8, 60)]
            ctx.assume(ctx.all([xs[0] < xs[1], ys[0] < ys[1]]))
            kw = dict(clip=False, wrap=False)
            if pad:
                kw['pad'] = ctx.int('pad', 0, 16)
        sl = (slice(*ys), slice(*xs))
    lazy = node.crop(sl, chans, lazy=True, **kw)
    plain = node.crop(sl, chans, **kw)
    if lazy is node:
        ctx.reach('kept-self')
    same_declaration(ctx, lazy, plain)
    if lazy is not node:
        # the plain documented no-ops
        noop = sl is None and chans is None
        ctx.check('noop-returns-self', not noop, 'no slice and no channels')
        if sl is not None and chans is None and not pad:
            full = [(ys[0] == 0), (ys[1] == pic.h), (xs[0] == 0), (xs[1] == pic.w)]
            if None not in ys and None not in xs:
                ctx.check('noop-returns-self', ctx.not_(ctx.all(full)), lambda: 'the window %s is the whole image' % (sl,))
    a, c = lazy.finalize(), plain.finalize()
    ctx.check('same-content', ctx.eq(tuple(a.shape), tuple(c.shape)), lambda: '%s instead of %s' % (a.shape, c.shape))
    h, w, n = plain.shape
    oy, ox = ctx.int('oy', 0, 120), ctx.int('ox', 0, 120)
    ctx.assume(ctx.all([oy < h, ox < w]))
    for k in range(n):
        u, v = symimg.pixel(a, oy, ox, k), symimg.pixel(c, oy, ox, k)
        ctx.check('same-content', symimg.same(ctx, u, v), lambda: 'pixel (%s,%s,%s) is %s instead of %s' % (oy, ox, k, u, v))


def warp(ctx, leaf, lin, dk, none=False):
    b = Bench(ctx)
    node, pic = base(ctx, b, leaf)
    import kwimage
    a, bb, c, d = LIN[lin]
    s = ctx.dyadic('s', 0.5, 1.5, 8)
    t = ctx.dyadic('t', 0.5, 1.5, 8) if dk != 'auto' else s
    tx, ty = ctx.dyadic('tx', -12, 12, 4), ctx.dyadic('ty', -12, 12, 4)
    T = None if none else kwimage.Affine.coerce(np.array([[a * s, bb * s, tx], [c * t, d * t, ty], [0.0, 0.0, 1.0]]))
    kw = {}
    if dk == 'sym':
        kw['dsize'] = (ctx.int('dw', 1, 60), ctx.int('dh', 1, 60))
    elif dk == 'list':
        kw['dsize'] = [ctx.int('dw', 1, 60), ctx.int('dh', 1, 60)]
    lazy = node.warp(T, lazy=True, **kw)
    if dk == 'list':
        kw['dsize'] = tuple(kw['dsize'])
    plain = node.warp(T, **kw)
    if lazy is node:
        ctx.reach('kept-self')
        ctx.check('same-declaration', ctx.eq(tuple(lazy.dsize), tuple(plain.dsize)), lambda: 'dsize %s instead of %s' % (lazy.dsize, plain.dsize))
        ctx.check('same-transform', ctx.all([ctx.close(x, y) for x, y in zip(mat(plain.meta['transform']), (1, 0, 0, 0, 1, 0))]),
                  lambda: 'skipped the transform %s' % (mat(plain.meta['transform']),))
        return
    if dk != 'list':
        same_declaration(ctx, lazy, plain)
    ctx.check('same-transform', ctx.all([ctx.close(x, y) for x, y in zip(mat(lazy.meta['transform']), mat(plain.meta['transform']))]))


def take(ctx, parts, have, want):
    b = Bench(ctx)
    vals = {}
    spec = Spec(ctx, have, exact=True, vals=vals)
    node, pic = tree(ctx, b, parts, [spec])
    req = None if want is None else Spec(ctx, want, exact=True, vals=vals)
    lazy = node.take_channels(None if req is None else req.text, lazy=True)
    if req is None:
        ctx.check('noop-returns-self', lazy is node)
        return
    plain = node.take_channels(req.text)
    same_declaration(ctx, lazy, plain)
    if lazy is node:
        ctx.reach('kept-self')
        ctx.check('same-declaration', list(req.names[0]) == list(spec.names[0]), lambda: '%s was not selected' % req.text)
    else:
        ctx.check('noop-returns-self', req.text != spec.text, 'the request is the spec of the image')
    a, c = lazy.finalize(), plain.finalize()
    oy, ox = ctx.int('oy', 0, 120), ctx.int('ox', 0, 120)
    ctx.assume(ctx.all([oy < pic.h, ox < pic.w]))
    distinct = len(set(spec.names[0])) == len(spec.names[0])
    for k in range(len(req.names[0])):
        u, v = symimg.pixel(a, oy, ox, k), symimg.pixel(c, oy, ox, k)
        if distinct:
            ctx.check('same-content', symimg.same(ctx, u, v), lambda: 'pixel (%s,%s,%s) is %s instead of %s' % (oy, ox, k, u, v))


def tasks(tier):
    C, W, T = 'crop', 'warp', 'take'
    out = [
        (C, dict(leaf='I', space='xy')), (C, dict(leaf='F', space='x')), (C, dict(leaf='N', space='y')), (C, dict(leaf='cat', space='y')),
        (C, dict(leaf='I', space='x', chans=[2, 0])), (C, dict(leaf='I', space='y', chans=[0, 1, 2])),
        (C, dict(leaf='cat', space='x', chans=[3, 1])),
        (C, dict(leaf='I', space=None, chans=[1])), (C, dict(leaf='Iu', space=None, chans=[1, 0])), (C, dict(leaf='I', space=None)),
        (C, dict(leaf='I', space='xy', pad=0)), (C, dict(leaf='F', space='xy', pad=1)),
        (C, dict(leaf='I', space='xy', pad=0, chans=[1, 0])),
        (T, dict(parts='I', have='m.A|m.B', want='m.C|m.D')), (T, dict(parts='F', have='m.A:B|x', want='m.C:D|x')),
        (T, dict(parts='I', have='rgb|m.A', want='r|g|b|m.B')), (T, dict(parts='N', have='m.A|m.B', want='m.C')),
        (T, dict(parts='I', have='m.A|m.B', want=None)),
    ]
    for lin in ('id', 'shear', 'flip', 'rot90'):
        for dk in ('auto', 'sym'):
            out.append((W, dict(leaf='I', lin=lin, dk=dk)))
    out += [(W, dict(leaf='cat', lin='id', dk='auto')), (W, dict(leaf='F', lin='id', dk='list')), (W, dict(leaf='I', lin='id', dk='auto', none=True)),
            (W, dict(leaf='cat', lin='id', dk='sym', none=True))]
    return out
