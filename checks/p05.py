"""
Optimizing is free of side effects and repeatable.  For every chain and every
value of its symbolic parameters: the original tree (node identities, types and
all metadata) is unchanged by optimize(); a second optimize() of the original,
also after a larger tree that shares it has been optimized, gives an equal
tree; optimizing an optimized tree keeps its size, channels and geometry; and a node that is
shared by two branches of a concatenation means the same in both.
"""
from checks import trees, configs
from checks.trees import W
import kwimage
PROPERTY = 'P05'
EXPECT = ['input-unchanged', 'repeatable', 'reoptimize', 'shared-node']
BOUNDS = {k: v + ' Longer chains are explored with the same symbols on both axes%s.' % (' only' if k == 'quick' else ', then independently') for k, v in configs.BOUNDS.items()}
OUTSIDE = configs.OUTSIDE
OPTS = configs.OPTS
OPTS_THOROUGH = configs.OPTS_THOROUGH
BUDGET = configs.BUDGET


def metaval(v):
    if isinstance(v, kwimage.Affine):
        return ['affine'] + list(trees.mat(v))
    if isinstance(v, (list, tuple)):
        return [metaval(x) for x in v]
    if isinstance(v, slice):
        return ['slice', v.start, v.stop, v.step]
    if isinstance(v, dict):
        return {k: metaval(x) for k, x in v.items()}
    return v


def children(node):
    if isinstance(node, trees.DelayedChannelConcat):
        return list(node.parts)
    sub = getattr(node, 'subdata', None)
    return [] if sub is None else [sub]


def snap(node, ids=False):
    meta = {k: metaval(v) for k, v in node.meta.items() if k != 'channels'}
    meta['channels'] = trees.chan_names(node)
    return [type(node).__name__, id(node) if ids else 0, meta, [snap(c, ids) for c in children(node)]]


def near(ctx, a, b):
    """structural equality, numbers to 1e-6"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return [False]
        return [c for x, y in zip(a, b) for c in near(ctx, x, y)]
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return [False]
        return [c for k in a for c in near(ctx, a[k], b[k])]
    if a is b:
        return []
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return [type(a) is type(b) and a == b]
    try:
        return [ctx.close(a, b)]
    except TypeError:
        return [a == b]


def shape(s):
    return [s[0], [shape(c) for c in s[3]]]


def harness(ctx, spec, second, mirror=False):
    b = trees.Builder(ctx, mirror=mirror)
    node = b.build(spec)
    # a larger tree on top of the same nodes
    big = b.apply(node, second)
    before = snap(node, ids=True)
    opt = node.optimize()
    after = snap(node, ids=True)
    ctx.check('input-unchanged', ctx.all(near(ctx, before, after)), lambda: 'before %s after %s' % (before, after))
    s1 = snap(opt)
    big.optimize()
    after = snap(node, ids=True)
    ctx.check('input-unchanged', ctx.all(near(ctx, before, after)), lambda: 'before %s after %s' % (before, after))
    ctx.check('repeatable', ctx.all(near(ctx, s1, snap(opt))), 'the optimized tree was changed by a later optimize')
    s2 = snap(node.optimize())
    ctx.check('repeatable', ctx.all(near(ctx, s1, s2)), lambda: 'first %s second %s' % (s1, s2))
    # optimizing the optimized tree again keeps size, channels and geometry
    opt2 = opt.optimize()
    ctx.check('reoptimize', ctx.eq(tuple(opt2.dsize), tuple(opt.dsize)),
              lambda: 'dsize %s became %s' % (opt.dsize, opt2.dsize))
    ctx.check('reoptimize', trees.chan_names(opt2) == trees.chan_names(opt))
    m1 = trees.meaning(opt)
    m2 = trees.meaning(opt2)
    ctx.check('reoptimize', len(m1) == len(m2))
    for c1, c2 in zip(m1, m2):
        if c1.nan:
            continue
        ctx.check('reoptimize', c1.leaf is c2.leaf and c1.index == c2.index)
        ctx.check('reoptimize', ctx.implies(trees.visible(ctx, c1, opt.dsize),
                  ctx.all([ctx.close(x, y) for x, y in zip(c1.T, c2.T)])), lambda: '%s became %s' % (c1.T, c2.T))


def shared(ctx, spec, one, two, mirror=False):
    """concat of two different chains over one shared node, and the shared
    node itself"""
    b = trees.Builder(ctx, mirror=mirror)
    node = b.build(spec)
    if b.common is None or 'com' not in one + two:
        b.common = tuple(node.dsize)
    p1 = b.apply(node, one)
    p2 = b.apply(node, two)
    if not ctx.eq(tuple(p1.dsize), tuple(p2.dsize)):
        return
    cat = trees.DelayedChannelConcat([p1, p2])
    m0 = trees.meaning(cat)
    before = snap(cat, ids=True)
    opt = cat.optimize()
    ctx.check('input-unchanged', ctx.all(near(ctx, before, snap(cat, ids=True))))
    m1 = trees.meaning(opt)
    ctx.check('shared-node', len(m0) == len(m1))
    for c0, c1 in zip(m0, m1):
        if c0.nan:
            continue
        ctx.check('shared-node', c0.leaf is c1.leaf and c0.index == c1.index)
        ctx.check('shared-node', ctx.implies(trees.visible(ctx, c0, cat.dsize),
                  ctx.all([ctx.close(x, y) for x, y in zip(c0.T, c1.T)])))
        q0 = [e for e in c0.events if not isinstance(e, str)]
        q1 = [e for e in c1.events if not isinstance(e, str)]
        ctx.check('shared-node', q0 == q1, lambda: 'dequantize events %s became %s' % (q0, q1))


def tasks(tier):
    out = []
    L = 'L0o2'
    singles = ['C', W('id'), W('up15', 'sym'), W('dn4', 'sym'), W('dn3', 'sym'), 'O1', 'Q']
    longer = [
        [L, 'O1', 'Q'], [L, 'O1', 'C'], [L, 'O1', 'Q', 'C'], [L, 'Q', 'O1', 'C'], [L, 'C', 'Q'],
        [L, W('up15', 'sym'), 'C'], [L, W('rot', 'sym'), 'C'], [L, 'C', W('dn3', 'sym')],
        [L, W('up2', 'sym'), 'O1'], [L, 'C#2,0'], [L, 'K#1,2', 'C'],
        [['cat', ['L0='], ['L1=']]], [['cat', ['L0='], ['L1', W('up2', 'com')]]],
        [['cat', ['L0=', 'Q'], ['L1=', 'Q']], 'C'],
        [['cat', ['L0=', 'O1', W('up2', 'com')], ['L1=']]],
    ]
    seconds = ['C', W('up2', 'sym'), W('dn4', 'sym'), 'O1']
    for s in longer:
        for t in seconds:
            out.append(('harness', {'spec': s, 'second': t, 'mirror': True}))
    for a in singles:
        for t in (W('up2', 'sym'), 'C'):
            out.append(('harness', {'spec': [L, a], 'second': t, 'mirror': True}))
    for base in (['L0'], ['L0', 'Q'], [L, 'O1', 'Q'], ['L0', W('up15', 'sym')], ['L0', 'C']):
        for one, two in ((W('up2', 'com'), W('dn3', 'com')), (W('up15', 'com'), 'K#1'),
                         (W('up2', 'com'), W('rot', 'com'))):
            out.append(('shared', {'spec': base, 'one': one, 'two': two, 'mirror': True}))
        out.append(('shared', {'spec': base, 'one': 'K#1', 'two': 'K#2,0', 'mirror': True}))
    if tier == 'thorough':
        out += [('harness', {'spec': s, 'second': t}) for s in longer for t in seconds]
        for s in configs.chains('thorough'):
            if 'K' in str(s):
                continue
            for t in seconds:
                out.append(('harness', {'spec': s, 'second': t}))
    return out
