"""
undo_warp / undo_warps: the transform that is returned is the one that was
applied, removing everything restores the source grid, removing only the scale
(or the rotation) leaves the other components alone.
"""
from checks import trees, configs
from checks.trees import W
import kwimage
import numpy as np
from delayed_image.delayed_nodes import DelayedChannelConcat
from delayed_image.delayed_leafs import DelayedNans
PROPERTY = 'P25'
EXPECT = ['returned-warp', 'all-removed', 'scale-removed', 'same-options', 'parts', 'squashed']
BOUNDS = ('chains listed in checks/p25.py over one or two sources; image sides in [2,48], crop windows any non-empty in-range window, '
          'offsets any multiple of 1/4 in [-12,12]; scale factors 1/4..4 from the table, rotations by the 3-4-5 angle')
OUTSIDE = configs.OUTSIDE + ' Component removal for transforms with shear, or with rotation and anisotropic scale (components do not commute there); squashing a no-data region whose undone canvas is empty.'
OPTS = dict(time_s=20, max_paths=400, query_ms=6000)
OPTS_THOROUGH = dict(time_s=200, max_paths=6000)
BUDGET = {'quick': 120, 'thorough': 1200}


def near(ctx, x, y, tol=1e-5):
    return ctx.all([ctx.close(p, q, tol) for p, q in zip(x, y)])


def grow(ctx, b, node, ops):
    for op in ops:
        if op.startswith('S'):      # 'S2' scale, 'Sr2' scale and rotate, 'S2,0.5' anisotropic; a trailing 'z' means no offset
            nums = [float(v) for v in op.strip('Srz').split(',')]
            s, t = nums[0], nums[-1]
            c, n = (0.8, 0.6) if 'r' in op else (1.0, 0.0)
            tx, ty = ctx.dyadic(b.name('tx'), -12, 12, 4), ctx.dyadic(b.name('ty'), -12, 12, 4)
            if 'z' in op:
                tx = ty = 0.0
            T = kwimage.Affine.coerce(np.array([[c * s, -n * t, tx], [n * s, c * t, ty], [0.0, 0.0, 1.0]]))
            node = node.warp(T, dsize=(ctx.int(b.name('dw'), 1, 48), ctx.int(b.name('dh'), 1, 48)))
        else:
            node = b.apply(node, op)
    return node


def one(ctx, leaf, ops, remove=None, retain=None, nan=False):
    b = trees.Builder(ctx)
    node = grow(ctx, b, b.build([leaf]), ops)
    T0 = trees.meaning(node)[0].T
    kw = {}
    if remove is not None:
        kw['remove'] = remove
    if retain is not None:
        kw['retain'] = retain
    undone, warp = node.undo_warp(return_warp=True, **kw)
    warp = trees.mat(warp)
    ref = node.warp(kwimage.Affine.coerce(np.array(list(warp) + [0.0, 0.0, 1.0]).reshape(3, 3)))
    ctx.check('returned-warp', ctx.eq(tuple(ref.dsize), tuple(undone.dsize)), lambda: 'size %s instead of %s' % (undone.dsize, ref.dsize))
    m0, m1 = trees.meaning(ref), trees.meaning(undone)
    ctx.check('returned-warp', len(m0) == len(m1))
    for c0, c1 in zip(m0, m1):
        ctx.check('returned-warp', c0.leaf is c1.leaf and c0.index == c1.index or c0.nan)
        if not c0.nan:
            ctx.check('returned-warp', ctx.implies(trees.visible(ctx, c0, ref.dsize), near(ctx, c0.T, c1.T)),
                      lambda: 'applied %s, returned %s' % (c1.T, c0.T))
    T1 = trees.compose(warp, T0)
    gone = set(remove or []) if retain is None else {'offset', 'scale', 'theta', 'shearx'} - set(retain)
    if remove is None and retain is None:
        gone = {'offset', 'scale', 'theta', 'shearx'}
    a, bb, c, d, e, f = T1
    if len(gone) == 4:
        ctx.check('all-removed', near(ctx, T1, trees.EYE), lambda: 'leaf transform %s' % (T1,))
    elif gone == {'scale'}:
        ctx.check('scale-removed', ctx.all([ctx.close(a * a + d * d, 1.0, 1e-5), ctx.close(bb * bb + e * e, 1.0, 1e-5)]),
                  lambda: 'remaining transform %s' % (T1,))
        # the rotation is kept
        ctx.check('scale-removed', ctx.all([ctx.close(a * T0[3], d * T0[0], 1e-4), a * T0[0] + d * T0[3] > 0]), lambda: 'remaining %s of %s' % (T1, T0))
    elif gone == {'theta'}:
        ctx.check('scale-removed', ctx.all([ctx.close(d, 0.0, 1e-5), ctx.close(a * a + d * d, T0[0] * T0[0] + T0[3] * T0[3], 1e-3)]),
                  lambda: 'remaining %s of %s' % (T1, T0))
    plain = node.undo_warp(**kw)
    ctx.check('same-options', ctx.eq(tuple(plain.dsize), tuple(undone.dsize)))
    if remove == ['scale']:
        other, w2 = node.undo_warp(retain=['offset', 'theta', 'shearx'], return_warp=True)
        ctx.check('same-options', near(ctx, trees.mat(w2), warp), lambda: 'retain gives %s, remove %s' % (trees.mat(w2), warp))
        ctx.check('same-options', ctx.eq(tuple(other.dsize), tuple(undone.dsize)))
    # squashing only concerns channels without data
    if nan:
        ctx.assume(ctx.all([undone.dsize[0] >= 1, undone.dsize[1] >= 1]))
    sq, w3 = node.undo_warp(squash_nans=True, return_warp=True, **kw)
    if nan:
        ctx.check('squashed', ctx.eq(tuple(sq.dsize), (1, 1)),
                  lambda: 'no-data size %s' % (sq.dsize,))
        # the whole canvas becomes the one pixel
        sw, sh = undone.dsize
        grown = tuple(v * sw for v in trees.mat(w3)[:3]) + tuple(v * sh for v in trees.mat(w3)[3:])
        ctx.check('squashed', near(ctx, grown, warp), lambda: 'with squash_nans %s, applied %s on a canvas of %s' % (trees.mat(w3), warp, undone.dsize))
    else:
        ctx.check('squashed', near(ctx, trees.mat(w3), warp), lambda: 'with squash_nans %s, applied %s' % (trees.mat(w3), warp))
        ctx.check('squashed', ctx.eq(tuple(sq.dsize), tuple(undone.dsize)))


def parts(ctx, specs, remove):
    b = trees.Builder(ctx)
    common = b.common_dsize()
    nodes = []
    for leaf, ops in specs:
        n = grow(ctx, b, b.build([leaf]), ops)
        nodes.append(n.warp(kwimage.Affine.eye(), dsize=common))
    cat = DelayedChannelConcat(nodes)
    outs, warps = cat.undo_warps(remove=remove, return_warps=True, squash_nans=True)
    plain = cat.undo_warps(remove=remove, squash_nans=True)
    ctx.check('parts', len(outs) == len(warps) == len(plain) == len(nodes))
    for n, o, w, p in zip(nodes, outs, warps, plain):
        one_, ww = n.undo_warp(remove=remove, return_warp=True)
        ctx.check('parts', ctx.eq(tuple(o.dsize), tuple(p.dsize)))
        ctx.check('parts', trees.chan_names(o) == trees.chan_names(n))
        if isinstance(o, DelayedNans):
            ctx.check('squashed', ctx.eq(tuple(o.dsize), (1, 1)), lambda: 'no-data size %s' % (o.dsize,))
            continue
        ctx.check('parts', ctx.eq(tuple(o.dsize), tuple(one_.dsize)))
        ctx.check('parts', near(ctx, trees.mat(w), trees.mat(ww)), lambda: 'warp %s instead of %s' % (trees.mat(w), trees.mat(ww)))


def tasks(tier):
    O, P = 'one', 'parts'
    out = []
    for ops in (['S2'], ['S1.5,0.75'], ['Sr2'], ['C', 'S3'], ['S0.5', 'C'], ['O1'], [W('flip', 'sym')], [W('up2', 'sym'), W('rot', 'sym')], ['Sr0.25', 'C']):
        out.append((O, dict(leaf='L0', ops=ops)))
    out.append((O, dict(leaf='L0o2', ops=['O1', 'S2'])))
    for ops in (['S3'], ['S2,0.5'], ['Sr2'], ['C', 'S0.25,4'], ['S1.5', 'C'], ['O1', 'S4'], ['S0.75z'], ['Sr0.5', 'C']):
        out.append((O, dict(leaf='L0', ops=ops, remove=['scale'])))
    for ops in (['S2'], ['Sr1.5'], ['Sr2', 'C']):
        out.append((O, dict(leaf='L0', ops=ops, remove=['theta'])))
        out.append((O, dict(leaf='L0', ops=ops, retain=['offset', 'shearx', 'theta'])))
    out.append((O, dict(leaf='N0', ops=['S2'], remove=['scale'], nan=True)))
    out.append((O, dict(leaf='N0', ops=['C', 'S2,0.5'], nan=True)))
    out.append((P, dict(specs=[('L0', ['S2']), ('L1', ['S3,0.5'])], remove=['scale'])))
    out.append((P, dict(specs=[('L0', ['S4']), ('N1', [])], remove=['scale'])))
    out.append((P, dict(specs=[('L0', ['C', 'S2']), ('L1', ['Sr0.5'])], remove=None)))
    if tier == 'thorough':
        for f in ('S5', 'S0.125', 'S0.375,3', 'Sr1.25', 'Sr4'):
            for rem in (None, ['scale'], ['theta'] if ',' not in f else ['scale']):
                out.append((O, dict(leaf='L0o2', ops=[f], remove=rem)))
                out.append((O, dict(leaf='L0o2', ops=['C', f], remove=rem)))
                out.append((O, dict(leaf='L0o2', ops=[f, 'C'], remove=rem)))
        out.append((O, dict(leaf='L0', ops=['S2', 'S1.5,0.5'], remove=['scale'])))
        out.append((O, dict(leaf='L0o2', ops=['O1', 'C', 'Sr2'])))
        out.append((O, dict(leaf='L0o2', ops=['Sr2', 'C', 'S0.5'])))
        out.append((P, dict(specs=[('L0', ['S2', 'C']), ('N1', ['C']), ('L2', ['S0.5,3'])], remove=['scale'])))
    return out
