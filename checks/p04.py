"""
Chains whose warps carry non-default resampling parameters (interpolation,
antialias, border_value, noop_eps, backend).  For every value of the symbolic sizes,
windows and offsets, and hence for every route the optimizer can take, each
warp node of the optimized tree must carry the parameter set of a warp of the
original chain (no silent fall back to defaults), the outermost one that of the
outermost original warp that is not an exact identity, and an original warp
that enlarges the canvas must leave a warp with its border value behind.
"""
from checks import trees, configs
from checks.trees import W
PROPERTY = 'P04'
EXPECT = ['params-survive', 'outermost-params', 'border-kept']
BOUNDS = {k: v.replace('Every chain in checks/configs.py', 'Every chain in checks/p04.py')
          for k, v in configs.BOUNDS.items()}
OUTSIDE = configs.OUTSIDE
OPTS = configs.OPTS
OPTS_THOROUGH = configs.OPTS_THOROUGH
BUDGET = configs.BUDGET


def key(p):
    return tuple((k, p[k]) for k in trees.ALGO_KEYS)


def harness(ctx, spec, mirror=False):
    b = trees.Builder(ctx, mirror=mirror)
    node = b.build(spec)
    m0 = trees.meaning(node)
    opt = node.optimize()
    m1 = trees.meaning(opt)
    for i, (c0, c1) in enumerate(zip(m0, m1)):
        if c0.nan or not c0.warps:
            continue
        if i and c0.leaf is m0[i - 1].leaf and c1.warps == m1[i - 1].warps and c0.warps == m0[i - 1].warps:
            continue
        orig = {key(p) for p in c0.warps}
        for p in c1.warps:
            ctx.check('params-survive', key(p) in orig,
                      'a warp of the optimized tree samples with %s, the original warps with %s' % (
                          key(p), sorted(map(str, orig))))
        if len(c1.warps) and not any_identity(ctx, node):
            ctx.check('outermost-params', key(c1.warps[-1]) == key(c0.warps[-1]),
                      'the outermost warp samples with %s instead of %s' % (key(c1.warps[-1]), key(c0.warps[-1])))
        # a canvas that extends past the data is filled with the border value
        if c0.events[-1] == 'warp' and len(c0.warps) == 1 and not c1.warps:
            lw, lh = c0.leaf.dsize
            back = trees.invert(c0.T)
            W_, H_ = node.dsize
            x0, y0, x1, y1 = trees.bbox(back, W_, H_)
            # whole samples outside the leaf (the overview grid rounds up)
            s = 2.0 ** (c0.overviews + c1.overviews)
            ctx.check('border-kept', ctx.not_(ctx.any([x0 < -s, y0 < -s, x1 > lw + s, y1 > lh + s])),
                      'the canvas extends past the data but no warp is left to fill the border')
        elif c0.warps:
            ctx.reach('border-kept')


def any_identity(ctx, node):
    """an exact identity warp may vanish together with its parameters"""
    while True:
        if isinstance(node, trees.DelayedWarp):
            T = trees.mat(node.meta['transform'])
            e = ctx.all([ctx.close(x, y, 1e-9) for x, y in zip(T, trees.EYE)])
            if e:
                return True
        node = getattr(node, 'subdata', None)
        if node is None or isinstance(node, trees.DelayedChannelConcat):
            return False


def specs(tier):
    out = []
    for a in ('n', 'a', 'b', 'm'):
        out += [
            ['L0', W('up15', 'sym', a)],
            ['L0v', W('dn4', 'sym', a + '0')],
            ['L0v', W('dn3', 'sym', a)],
            ['L0o2', W('dnx', 'sym', a)],
            ['L0', W('up2', 'sym', a), 'C'],
            ['L0', W('rot', 'sym', a), 'C'],
            ['L0', W('up2', 'sym', a), 'O1'],
            ['L0o2', 'O1', W('up2', 'sym', a)],
            ['L0o2', 'O1', 'Q', W('up2', 'sym', a)],
            ['L0o2', 'O1', 'C', W('up2', 'sym', a)],
            ['L0', W('up2', 'sym', a), 'Q'],
            ['L0', W('up15', 'sym', 'd'), W('dn3', 'sym', a)],
            ['L0', W('up2', 'sym', a), 'C', W('dn2', 'sym', a)],
            ['L0o2', 'C', W('dn4', 'sym', a)],
            ['L0o2', 'C', W('dn4', 'sym', a + '0')],
            ['L0o2', 'Q', W('dn4', 'sym', a + '0')],
            ['L0o2', 'C', 'Q', W('dnx', 'sym', a)],
            [['cat', ['L0='], ['L1=']], W('up15', 'sym', a), 'C'],
            [['cat', ['L0', W('up2', 'com', a)], ['L1', W('dn2', 'com', 'd')]], 'C'],
        ]
    if tier == 'thorough':
        for a in ('n', 'a', 'b', 'm'):
            for x in ['C', 'O1', 'Q', W('up2', 'sym', a)]:
                for lin in ['up2', 'dn4', 'rot', 'mix', 'id']:
                    for y in ['C', 'O1', 'Q', W('dn3', 'sym', a)]:
                        if x == y == 'Q':
                            continue
                        out.append(['L0o2', x, W(lin, 'sym', a), y])
    return out


def tasks(tier):
    return configs.both('harness', specs(tier))
