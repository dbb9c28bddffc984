"""
Which image pyramid levels the optimizer reads.  For every value of the
symbolic sizes, windows, offsets, number of stored overviews, and (in the
`scale` harness) of the symbolic scale factors themselves: a level that the
user did not ask for is only introduced when it is stored, and when it is no
coarser than what the chain asks for on either axis; the remaining scale is
accounted for; a plain downsampling warp over a file does use
min(stored, floor(log2(1/scale))) levels; and an upsampling that cancels a
requested overview reads finer data, never coarser.
"""
from checks import trees, configs
from checks.trees import W
import kwimage
import numpy as np
from delayed_image.delayed_leafs import DelayedLoad
PROPERTY = 'P07'
EXPECT = ['level-exists', 'level-not-too-coarse', 'level-used', 'scale-accounted']
BOUNDS = {k: v.replace('Every chain in checks/configs.py', 'Every chain in checks/p07.py') +
          ' The `scale` harness: scale factors any real in [1/40, 1], offsets multiples of 1/4, stored levels 0..4.'
          for k, v in configs.BOUNDS.items()}
OUTSIDE = configs.OUTSIDE
OPTS = configs.OPTS
OPTS_THOROUGH = configs.OPTS_THOROUGH
BUDGET = configs.BUDGET


def max_scale(T):
    """largest scale component of the affine matrix (concrete)"""
    a, b, c, d, e, f = [float(v) if i % 3 != 2 else 0.0 for i, v in enumerate(T)]
    p = kwimage.Affine(np.array([[a, b, 0], [d, e, 0], [0, 0, 1.0]])).decompose()
    return max(abs(v) for v in p['scale'])


def harness(ctx, spec, mirror=False):
    b = trees.Builder(ctx, mirror=mirror)
    node = b.build(spec)
    m0 = trees.meaning(node)
    opt = node.optimize()
    m1 = trees.meaning(opt)
    for c0, c1 in zip(m0, m1):
        if c0.nan:
            continue
        extra = c1.overviews - c0.overviews
        stored = c0.leaf.num_overviews or 0
        if extra > 0:
            ctx.check('level-exists', extra <= stored,
                      lambda: '%s levels introduced, %s stored' % (extra, stored))
            s = max_scale(c0.T)
            ctx.check('level-not-too-coarse', s * 2 ** c1.overviews <= 1 + 1e-9,
                      lambda: 'total scale %s read from overview %s' % (s, c1.overviews))
        only = [o for o in spec[1:] if o[0] == 'W']
        if isinstance(spec[0], str) and len(spec) == 2 and len(only) == 1:
            s = max_scale(c0.T)
            best = max(0, min(stored, int(np.floor(np.log2(1 / s) + 1e-12))))
            ctx.check('level-used', c1.overviews == best,
                      lambda: 'scale %s: %s levels used, %s stored' % (s, c1.overviews, stored))
        elif extra <= 0:
            ctx.reach('level-exists')


def scale(ctx, iso, crop, dq):
    """symbolic scale factors"""
    stored = ctx.choice('stored', [0, 1, 2, 4])
    w = ctx.int('w', 8, 64)
    h = ctx.int('h', 8, 64)
    leaf = DelayedLoad('/nowhere/a.tif', channels='a|b', dsize=(w, h), num_overviews=stored)
    sx = ctx.real('sx', '1/40', 1)
    sy = sx if iso else ctx.real('sy', '1/40', 1)
    dw = ctx.int('dw', 1, 64)
    dh = ctx.int('dh', 1, 64)
    node = leaf
    if dq:
        node = node.dequantize(dict(trees.QUANT))
    if crop:
        x0 = ctx.int('x0', 0, 60)
        ctx.assume(x0 < w - 3)
        node = node.crop((slice(0, h), slice(x0, w)))
    tx = ctx.dyadic('tx', -4, 4, 4) if crop else 0.0
    T = kwimage.Affine(np.array([[sx, 0.0, tx], [0.0, sy, 0.0], [0.0, 0.0, 1.0]]))
    node = node.warp(T, dsize=(dw, dh))
    opt = node.optimize()
    c = trees.meaning(opt)[0]
    k = c.overviews
    ctx.check('level-exists', k <= stored, lambda: '%s levels used, %s stored' % (k, stored))
    big = ctx.ite(sx >= sy, sx, sy)
    p = float(2 ** k)
    ctx.check('level-not-too-coarse', ctx.implies(k > 0, big * p <= 1 + 1e-9),
              lambda: 'scale %s %s read from overview %s' % (sx, sy, k))
    if k < stored:
        # one level more would have been too coarse
        ctx.check('level-used', big * (2 * p) >= 1 - 1e-9,
                  lambda: 'scale %s %s reads overview %s although %s are stored' % (sx, sy, k, stored))
    ctx.check('scale-accounted', ctx.all([ctx.close(c.T[0], sx, 1e-5), ctx.close(c.T[4], sy, 1e-5)]),
              lambda: 'total scale %s %s requested %s %s' % (c.T[0], c.T[4], sx, sy))
    ctx.check('scale-accounted', ctx.eq(tuple(opt.dsize), (dw, dh)))


def specs(tier):
    L = 'L0v'
    out = [[L, W(lin, 'sym', a)] for lin in
           ['dn2', 'dn3', 'dn4', 'dn8', 'dnx', 'dny', 'mix', 'rotdn', 'up2', 'id', 'rot', 'flip'] for a in ('d', 'd0')]
    out += [
        [L, 'C', W('dn4', 'sym')], [L, W('dn4', 'sym'), 'C'], [L, W('dn3', 'sym'), W('dn2', 'sym')],
        [L, W('dn4', 'sym'), W('up2', 'sym')], [L, W('up2', 'sym'), W('dn8', 'sym')],
        [L, 'Q', W('dn4', 'sym')], [L, W('dn4', 'sym'), 'Q'], [L, 'O1', W('dn2', 'sym')], [L, 'O1', W('dn4', 'sym')],
        ['L0o2', 'O1', W('dn8', 'sym')], ['L0o2', 'O1', 'C', W('dn4', 'sym')], ['L0o2', 'O2', W('dn4', 'sym')],
        ['L0o2', W('dn4', 'sym'), 'O1'], [L, 'O1', W('up2', 'sym')], [L, 'O2', W('up2', 'sym')],
        ['L0o2', 'C', 'Q', W('dnx', 'sym')], ['L0o2', 'C', 'O1', W('dn2', 'sym')],
        [['cat', ['L0o1='], ['L1o2=']], W('dn4', 'sym')],
        [['cat', ['L0='], ['L1o2', W('dn4', 'com')]], W('dn2', 'sym')],
    ]
    if tier == 'thorough':
        lins = ['dn2', 'dn3', 'dn4', 'dn8', 'dnx', 'mix', 'rotdn', 'up2', 'id']
        for a in lins:
            for b in lins:
                out += [[L, W(a, 'sym'), W(b, 'sym')], ['L0o2', 'C', W(a, 'sym'), W(b, 'sym', 'd0')],
                        ['L0o2', 'O1', W(a, 'sym'), W(b, 'sym')]]
    return out


def tasks(tier):
    out = [('scale', {'iso': iso, 'crop': crop, 'dq': dq}) for iso in (True, False)
           for crop in (False, True) for dq in ((False,) if tier == 'quick' else (False, True))]
    return out + configs.both('harness', specs(tier))
