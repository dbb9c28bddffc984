"""
For every chain (symbolic sizes, windows, offsets, output sizes) the solver
decides that the affine map from leaf pixels to output pixels of every channel
of the optimized tree is the one of the original tree, to 1e-6, and that
get_transform_from_leaf of both agrees with it.  When the output canvas misses
the data altogether (every output pixel is border) the map has no observable
effect and is not compared.  The maps are composed by the
harness from the crop windows, warp matrices and overview factors found in the
two trees, independently of the library's own bookkeeping.
"""
from checks import trees, configs
PROPERTY = 'P02'
EXPECT = ['geometry', 'from-leaf']
BOUNDS = configs.BOUNDS
OUTSIDE = configs.OUTSIDE
OPTS = configs.OPTS
OPTS_THOROUGH = configs.OPTS_THOROUGH
BUDGET = configs.BUDGET


def harness(ctx, spec, mirror=False):
    b = trees.Builder(ctx, mirror=mirror)
    node = b.build(spec)
    m0 = trees.meaning(node)
    opt = node.optimize()
    m1 = trees.meaning(opt)
    ctx.check('geometry', len(m1) == len(m0))
    for i, (c0, c1) in enumerate(zip(m0, m1)):
        if c0.nan:
            continue
        if i and c0.T is m0[i - 1].T and c1.T is m1[i - 1].T:
            continue
        seen = trees.visible(ctx, c0, node.dsize)
        same = ctx.all([ctx.close(x, y) for x, y in zip(c0.T, c1.T)])
        ctx.check('geometry', ctx.implies(seen, same),
                  'channel %d: leaf->output map %s became %s' % (i, c0.T, c1.T) if not ctx.symbolic else '')
    if not isinstance(node, trees.DelayedChannelConcat):
        for n, m in ((node, m0), (opt, m1)):
            if isinstance(n, trees.DelayedChannelConcat) or not m or m[0].nan:
                continue
            leafs = {id(c.leaf) for c in m}
            if len(leafs) != 1:
                continue
            T = trees.mat(n.get_transform_from_leaf())
            ctx.check('from-leaf', ctx.all([ctx.close(x, y) for x, y in zip(T, m[0].T)]),
                      'get_transform_from_leaf %s, composed %s' % (T, m[0].T) if not ctx.symbolic else '')


def tasks(tier):
    return configs.both('harness', configs.chains(tier))
