"""
Chains with a dequantize node at any position (between crops, overviews, warps
and concatenations).  For every value of the symbolic parameters the optimized
tree applies the same dequantizations to each channel exactly as often as the
original did, with the same parameters, and never after an interpolating warp
(interpolating quantized codes or nodata values would invent data).
"""
from checks import trees, configs
from checks.trees import W
PROPERTY = 'P06'
EXPECT = ['dequantize-once', 'before-resampling', 'declared-size']
BOUNDS = {k: v.replace('Every chain in checks/configs.py', 'Every chain in checks/p06.py')
          for k, v in configs.BOUNDS.items()}
OUTSIDE = configs.OUTSIDE
OPTS = configs.OPTS
OPTS_THOROUGH = configs.OPTS_THOROUGH
BUDGET = configs.BUDGET


def all_nodes(node):
    seen = {}
    todo = [node]
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen[id(n)] = n
        if isinstance(n, trees.DelayedChannelConcat):
            todo.extend(n.parts)
        elif getattr(n, 'subdata', None) is not None:
            todo.append(n.subdata)
    return list(seen.values())


def harness(ctx, spec, mirror=False):
    b = trees.Builder(ctx, mirror=mirror)
    node = b.build(spec)
    m0 = trees.meaning(node)
    opt = node.optimize()
    m1 = trees.meaning(opt)
    ctx.check('dequantize-once', len(m0) == len(m1))
    for i, (c0, c1) in enumerate(zip(m0, m1)):
        q0 = [e for e in c0.events if not isinstance(e, str)]
        q1 = [e for e in c1.events if not isinstance(e, str)]
        ctx.check('dequantize-once', q0 == q1, lambda: 'channel %d: %s became %s' % (i, q0, q1))
        warps = iter(c1.warps)
        kinds = []
        for e in c1.events:
            if e == 'warp':
                # nearest neighbor sampling does not mix values
                e = 'nearest' if next(warps)['interpolation'] == 'nearest' else 'warp'
            kinds.append(e if isinstance(e, str) else 'Q')
        ok = 'Q' not in kinds or 'warp' not in kinds[:kinds.index('Q')]
        ctx.check('before-resampling', ok, lambda: 'channel %d: %s' % (i, kinds))
    # a dequantize node does not change the extent
    for n in all_nodes(opt):
        if isinstance(n, trees.DelayedDequantize):
            ctx.check('declared-size', ctx.eq(tuple(n.dsize), tuple(n.subdata.dsize)),
                      lambda: 'a dequantize node of the optimized tree declares %s over data of %s' % (n.dsize, n.subdata.dsize))


def specs(tier):
    L = 'L0o2'
    out = [
        [L, 'Q'],
        [L, 'Q', 'C'], [L, 'C', 'Q'],
        [L, 'Q', 'O1'], [L, 'O1', 'Q'],
        [L, 'Q', W('up15', 'sym')], [L, W('up15', 'sym'), 'Q'],
        [L, 'Q', W('dn4', 'sym', 'd0')], [L, W('dn4', 'sym', 'd0'), 'Q'],
        [L, W('dn3', 'sym'), 'Q'], [L, W('rot', 'sym'), 'Q'],
        [L, W('up2', 'sym', 'n'), 'Q'],
        [L, W('up2', 'sym', 'n'), 'C', 'Q'],
        [L, W('up2', 'sym'), 'C', 'Q'], [L, 'C', W('dn3', 'sym'), 'Q'],
        [L, W('up15', 'sym'), 'O1', 'Q'], [L, 'O1', W('up15', 'sym'), 'Q'], [L, 'O1', W('up2', 'sym'), 'Q'],
        [L, 'O1', 'Q', W('up2', 'sym')], [L, 'O1', 'Q', 'C', W('up2', 'sym')], [L, 'Q', 'O1', 'C', W('up2', 'sym')],
        [L, 'O1', 'C', 'Q', W('up2', 'sym')],
        [L, 'C', 'O1', 'Q'], [L, 'C', 'Q', 'O1'], [L, 'Q', 'C', 'O1'],
        [L, 'Q', W('up2', 'sym'), 'C'], [L, 'Q', W('dn3', 'sym'), 'C', 'O1'],
        [L, W('up2', 'sym'), W('dn3', 'sym'), 'Q'],
        [L, 'Q', 'C#2,0'], [L, 'C#2,0', 'Q'], [L, 'Q', 'K#1', W('up2', 'sym')],
        [['cat', ['L0='], ['L1=']], 'Q'],
        [['cat', ['L0='], ['L1=']], 'C', 'Q'],
        [['cat', ['L0='], ['L1', W('up15', 'com')]], 'Q'],
        [['cat', ['L0='], ['L1', W('up15', 'com')]], W('dn2', 'sym'), 'Q'],
        [['cat', ['L0=', 'Q'], ['L1', 'Q', W('up15', 'com')]], 'C'],
        [['cat', ['L0=', 'Q'], ['L1=']], W('up15', 'sym')],
        [['cat', ['L0=', 'Q'], ['L1=']], 'K#4,0', 'O1'],
        [['cat', ['L0', W('up2', 'com'), 'Q'], ['L1=', 'Q']], 'C#3,0'],
    ]
    if tier == 'thorough':
        small = ['C', W('up2', 'sym'), W('dn4', 'sym'), W('rot', 'sym'), 'O1']
        for a in small:
            for b in small:
                for c in small:
                    out += [[L, 'Q', a, b, c], [L, a, 'Q', b, c], [L, a, b, 'Q', c], [L, a, b, c, 'Q']]
    return out


def tasks(tier):
    return configs.both('harness', specs(tier))
