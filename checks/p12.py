"""
get_transform_from: two views of one source (or of one concatenation of
sources), built by different symbolic operation chains, optimized or not.  The
reported transform is compared with the quotient of the leaf transforms that the
harness composes itself, in both directions, and across a third view.
"""
from checks import trees, configs
from checks.trees import W
from vlib import symimg
PROPERTY = 'P12'
EXPECT = ['transform-from', 'inverse', 'from-self', 'chain']
BOUNDS = ('a shared stem and two branches from the tables in checks/p12.py; image sides in [2,48], crop windows any non-empty '
          'in-range integer window, warp offsets any multiple of 1/4 in [-12,12], output sizes in [1,48]; linear parts from the '
          'table in checks/trees.py; concatenations of up to 3 differently aligned sources against a view of one of them, alone or next to a further source')
OUTSIDE = configs.OUTSIDE + ' Views that share no leaf (documented precondition); trees that contain an xarray cast.'
OPTS = dict(time_s=15, max_paths=400, query_ms=6000)
OPTS_THOROUGH = dict(time_s=200, max_paths=6000)
BUDGET = {'quick': 120, 'thorough': 1500}


def quotient(a, b):
    """transform from b to a"""
    return trees.compose(a, trees.invert(b))


def near(ctx, x, y):
    return ctx.all([ctx.close(p, q) for p, q in zip(x, y)])


def paths(node):
    """(leaf id, transform) of every channel group"""
    out = {}
    for c in trees.meaning(node):
        out.setdefault(id(c.leaf), c.T)
    return out


def harness(ctx, stem, left, right, opt=''):
    b = trees.Builder(ctx, mirror=False)
    base = b.build(stem)
    a = base
    for op in left:
        a = b.apply(a, op)
    c = base
    for op in right:
        c = b.apply(c, op)
    if 'l' in opt:
        a = a.optimize()
    if 'r' in opt:
        c = c.optimize()
    pa, pc, pb = paths(a), paths(c), paths(base)
    common = [k for k in pa if k in pc]
    if not common:
        return
    got = trees.mat(a.get_transform_from(c))
    cand = [quotient(pa[k], pc[k]) for k in common]
    ctx.check('transform-from', ctx.any([near(ctx, got, w) for w in cand]), lambda: 'reported %s, composed %s' % (got, cand))
    back = trees.mat(c.get_transform_from(a))
    inv = [quotient(pc[k], pa[k]) for k in common]
    ctx.check('inverse', ctx.any([near(ctx, back, w) for w in inv]), lambda: 'reported %s, composed %s' % (back, inv))
    ctx.check('from-self', near(ctx, trees.mat(a.get_transform_from(a)), trees.EYE))
    if opt == '' and len(common) == 1:
        via = trees.compose(trees.mat(a.get_transform_from(base)), trees.mat(base.get_transform_from(c)))
        ctx.check('chain', near(ctx, via, got), lambda: 'through the stem %s, direct %s' % (via, got))


def shared(ctx, parts, view, which, other=False, opt=''):
    """a concatenation of differently aligned sources, and a view of only one of them"""
    b = trees.Builder(ctx, mirror=True)
    nodes = [b.build(['L%d=' % i] + p) for i, p in enumerate(parts)]
    leaf = b.leafs[which]
    a = trees.DelayedChannelConcat(nodes)
    c = leaf
    for op in view:
        c = b.apply(c, op)
    if other:
        # next to another source that the first view does not have
        extra = trees.delayed_leafs.DelayedIdentity(symimg.image(ctx, c.dsize[1], c.dsize[0], 1, 7))
        c = trees.DelayedChannelConcat([extra, c] if other == 'before' else [c, extra])
    if 'l' in opt:
        a = a.optimize()
    if 'r' in opt:
        c = c.optimize()
    k = id(leaf)
    pa, pc = paths(a), paths(c)
    if k not in pa or k not in pc:
        return
    want = quotient(pa[k], pc[k])
    got = trees.mat(a.get_transform_from(c))
    ctx.check('transform-from', near(ctx, got, want), lambda: 'reported %s, composed %s' % (got, want))
    back = trees.mat(c.get_transform_from(a))
    ctx.check('inverse', near(ctx, back, trees.invert(want)), lambda: 'reported %s, composed %s' % (back, trees.invert(want)))


BRANCH = [['C'], [W('up2')], [W('rot')], ['O1'], ['C', W('up15')], [W('dn4', 'sym'), 'C'], [W('flip', 'sym')], ['Q', 'C'], ['O1', 'C'],
          ['C', 'O1'], [W('shear', 'sym'), W('dn2', 'sym')], ['C#1,0', 'K#1']]
STEMS = [['L0'], ['L0o2'], ['L0', 'C'], ['L0', W('up15', 'sym')]]
CATS = [['cat', ['L0='], ['L1=']]]


def tasks(tier):
    H, H2 = 'harness', 'shared'
    out = []
    n = len(BRANCH)
    for i, l in enumerate(BRANCH):
        r = BRANCH[(i * 5 + 3) % n]
        s = STEMS[i % len(STEMS)]
        out.append((H, dict(stem=s, left=l, right=r)))
        out.append((H, dict(stem=s, left=l, right=r, opt='lr' if i % 2 else 'l')))
    for l, r in [(['C'], [W('up2', 'sym')]), ([W('rot', 'sym')], ['C']), (['C', W('dn2', 'sym')], ['K#1,3']), (['K#3,4', 'C'], ['K#2,4', W('up15', 'sym')])]:
        for o in ('', 'lr'):
            out.append((H, dict(stem=CATS, left=l, right=r, opt=o)))
    P = [[[], [W('dn2', 'com')]], [[W('up2', 'com')], []], [['C', W('up15', 'com')], [W('dn4', 'com')], []], [[W('rot', 'com')], [W('flip', 'com')]]]
    for i, parts in enumerate(P):
        for which in range(len(parts)):
            out.append((H2, dict(parts=parts, view=BRANCH[(3 * i + which) % n], which=which)))
            out.append((H2, dict(parts=parts, view=BRANCH[(3 * i + which + 1) % n], which=which, other='before' if which else 'after', opt='' if i % 2 else 'lr')))
            out.append((H2, dict(parts=parts, view=BRANCH[(3 * i + which + 6) % n], which=which, other='after' if which else 'before')))
    if tier == 'thorough':
        for s in STEMS:
            for l in BRANCH:
                for r in BRANCH:
                    for o in ('', 'lr'):
                        if [l, r].count(['Q', 'C']) <= 1:
                            out.append((H, dict(stem=s, left=l, right=r, opt=o)))
    return out
