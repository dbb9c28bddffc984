"""
Every chain of operations over symbolic image sizes, crop windows, offsets and
output sizes is built with the real API, the real optimizer runs on it, and the
solver decides that the reported size, channel count and channel order of the
optimized tree equal those of the original for every value in the bounds, and
that each output channel still is the same channel of the same leaf.
"""
from checks import trees, configs
PROPERTY = 'P01'
EXPECT = ['dsize', 'channels', 'source-channel']
BOUNDS = configs.BOUNDS
OUTSIDE = configs.OUTSIDE
OPTS = configs.OPTS
OPTS_THOROUGH = configs.OPTS_THOROUGH
BUDGET = configs.BUDGET


def harness(ctx, spec, mirror=False):
    b = trees.Builder(ctx, mirror=mirror)
    node = b.build(spec)
    dsize0 = node.dsize
    nch = node.num_channels
    names = trees.chan_names(node)
    m0 = trees.meaning(node)
    opt = node.optimize()
    ctx.check('dsize', ctx.eq(tuple(opt.dsize), tuple(dsize0)), 'optimized dsize %r != %r' % (opt.dsize, dsize0) if not ctx.symbolic else '')
    ctx.check('shape', ctx.eq(tuple(opt.shape), tuple(node.shape)))
    ctx.check('channels', ctx.eq(opt.num_channels, nch))
    ctx.check('channels', ctx.eq(trees.chan_names(opt), names),
              '%r != %r' % (trees.chan_names(opt), names))
    m1 = trees.meaning(opt)
    ctx.check('source-channel', len(m1) == len(m0))
    for c0, c1 in zip(m0, m1):
        ctx.check('source-channel', c0.nan == c1.nan)
        if not c0.nan:
            ctx.check('source-channel', c0.leaf is c1.leaf and c0.index == c1.index,
                      '%r[%r] became %r[%r]' % (c0.leaf, c0.index, c1.leaf, c1.index) if not ctx.symbolic else '')


def tasks(tier):
    return configs.both('harness', configs.chains(tier))
