"""
Trees built over a file before it was opened against the same trees built over
the opened file: sizes, channels, geometry and pyramid levels, before and after
the metadata arrives, plain and optimized.
"""
from checks import trees
from checks.trees import W, CHANS, Builder, meaning, chan_names
from delayed_image.delayed_leafs import DelayedLoad
PROPERTY = 'P29'
EXPECT = ['declared', 'unknown', 'before', 'prepare', 'after', 'after-optimized', 'levels']
BOUNDS = ('the chains of checks/p29.py over one or two files of known size: image sides in [2,48], crop windows any non-empty window, warp offsets '
          'every multiple of 1/4 in [-12,12], canvas sides in [1,48] or automatic, 0 to 3 stored overviews; channel names, number of overviews given or not')
OUTSIDE = 'files whose size is unknown when the tree is built (most operations refuse them); pixels (P24)'
STUBS = ['the opened file: an object with the symbolic shape and number of overviews']
OPTS = dict(time_s=25, max_paths=400, query_ms=6000)
OPTS_THOROUGH = dict(time_s=240, max_paths=6000, query_ms=20000)
BUDGET = {'quick': 120, 'thorough': 1800}


class File:
    """what DelayedLoad uses of an opened file"""
    nodata_method = None

    def __init__(self, shape, num_overviews):
        self.shape = shape
        self.num_overviews = num_overviews


class Recall:
    """the same symbols for a second tree"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.seen = {}

    def int(self, name, *a):
        if name not in self.seen:
            self.seen[name] = self.ctx.int(name, *a)
        return self.seen[name]

    def dyadic(self, name, *a):
        if name not in self.seen:
            self.seen[name] = self.ctx.dyadic(name, *a)
        return self.seen[name]

    def __getattr__(self, k):
        return getattr(self.ctx, k)


class Late(Builder):
    def __init__(self, ctx, given, early, **kw):
        super().__init__(ctx, **kw)
        self.given = given
        self.early = early
        self.known = {}

    def leaf(self, tok):
        if tok[0] == 'N' or tok in self.known and '=' not in tok:
            return super().leaf(tok) if tok[0] == 'N' else self.known[tok]
        leaf = super().leaf(tok)
        idx = int(tok[1])
        names = CHANS[idx].split('|')
        w, h = leaf.dsize
        new = DelayedLoad(leaf.fpath, channels=CHANS[idx] if 'c' in self.given else None, dsize=(w, h),
                          num_overviews=leaf.num_overviews if 'o' in self.given else None)
        new.lazy_ref = File((h, w, len(names)), leaf.num_overviews)
        self.leafs[-1] = new
        self.known[tok] = new
        if self.early:
            self.ctx.check('prepare', new.prepare() is new)
        return new


def same(ctx, label, m0, m1, what):
    ctx.check(label, len(m0) == len(m1), lambda: '%s: %s channels instead of %s' % (what, len(m1), len(m0)))
    for a, b in zip(m0, m1):
        ctx.check(label, a.nan == b.nan and (a.nan or a.leaf.fpath == b.leaf.fpath and a.index == b.index), lambda: '%s: other channel' % what)
        if a.nan:
            continue
        ctx.check(label, a.events == b.events and a.overviews == b.overviews, lambda: '%s: %s (level %s) instead of %s (level %s)' % (
            what, b.events, b.overviews, a.events, a.overviews))
        ctx.check(label, ctx.all([ctx.close(x, y, 1e-9) for x, y in zip(a.T, b.T)]), lambda: '%s: moved to %s instead of %s' % (what, b.T, a.T))
        ctx.check(label, len(a.windows) == len(b.windows) and ctx.all(
            [ctx.close(x, y, 1e-9) for u, v in zip(a.windows, b.windows) for x, y in zip(u[1:5], v[1:5])]), lambda: '%s: other windows' % what)
        ctx.check(label, ctx.eq(a.warps, b.warps) if a.warps else not b.warps, lambda: '%s: other options' % what)


def late(ctx, spec, given='c', mirror=True, optimized=True):
    recall = Recall(ctx)
    b0 = Late(recall, given, True, mirror=mirror)
    b1 = Late(recall, given, False, mirror=mirror)
    early = b0.build(spec)
    node = b1.build(spec)
    ctx.check('declared', ctx.eq(tuple(node.dsize), tuple(early.dsize)), lambda: 'size %s instead of %s' % (node.dsize, early.dsize))
    ctx.check('declared', chan_names(node) == chan_names(early), lambda: 'channels %s instead of %s' % (chan_names(node), chan_names(early)))
    n = node.num_channels
    ctx.check('unknown', n is None or n == early.num_channels, lambda: '%s channels instead of %s' % (n, early.num_channels))
    if 'c' in given:
        ctx.check('unknown', n == early.num_channels, lambda: '%s channels instead of %s' % (n, early.num_channels))
    ov = node.num_overviews
    ctx.check('unknown', ov is None or ov == early.num_overviews, lambda: '%s overviews before the file is opened, then %s' % (ov, early.num_overviews))
    if 'o' in given:
        ctx.check('unknown', ov == early.num_overviews)
    m0 = meaning(early)
    if 'c' in given and optimized:
        # nothing is known about stored levels, so none is used
        opt = node.optimize()
        ctx.check('before', ctx.eq(tuple(opt.dsize), tuple(node.dsize)), lambda: 'optimized size %s instead of %s' % (opt.dsize, node.dsize))
        mb = meaning(opt)
        ctx.check('before', len(mb) == len(m0) and chan_names(opt) == chan_names(early))
        for a, b in zip(m0, mb):
            ctx.check('before', a.nan == b.nan and (a.nan or a.index == b.index and a.leaf.fpath == b.leaf.fpath))
            if not a.nan and 'o' not in given:
                ctx.check('levels', b.overviews <= a.overviews, lambda: 'level %s of a file that was not opened' % b.overviews)
            if not a.nan:
                ctx.check('before', ctx.implies(trees.visible(ctx, a, early.dsize),
                                                ctx.all([ctx.close(x, y, 1e-6) for x, y in zip(a.T, b.T)])), lambda: 'moved to %s instead of %s' % (b.T, a.T))
    ctx.check('prepare', node.prepare() is node)
    for l0, l1 in zip(b0.leafs, b1.leafs):
        ctx.check('prepare', ctx.eq(tuple(l0.shape), tuple(l1.shape)) and l0.num_overviews == l1.num_overviews,
                  lambda: 'leaf %s instead of %s' % (l1.shape, l0.shape))
    ctx.check('after', ctx.eq(tuple(node.dsize), tuple(early.dsize)) and chan_names(node) == chan_names(early))
    ctx.check('after', node.num_overviews == early.num_overviews, lambda: '%s overviews instead of %s' % (node.num_overviews, early.num_overviews))
    ctx.check('after', ctx.eq(tuple(node.shape), tuple(early.shape)), lambda: 'shape %s instead of %s' % (node.shape, early.shape))
    same(ctx, 'after', m0, meaning(node), 'plain')
    same(ctx, 'after-optimized', meaning(early.optimize()), meaning(node.optimize()), 'optimized')


ONE = [
    ['L0v'],
    ['L0v', 'C'],
    ['L0v', 'C#2,0'],
    ['L0v', 'K1,0'],
    ['L0v', W('dn2')],
    ['L0v', W('dn4', 'sym')],
    ['L0v', W('up15'), 'C'],
    ['L0v', 'O1'],
    ['L0v', 'O1', 'C', W('up2', 'sym')],
    ['L0v', 'C', W('dn2')],
    ['L0v', W('dn4'), 'C'],
    ['L0v', 'Q', W('dn2')],
    ['L0v', 'C', 'Q', 'C'],
    ['L0v', W('rot', 'sym')],
    ['L0v', 'O2', 'Q'],
]
NAMED = [
    ['L0v', 'K b|a'],
    ['L0v', 'K c|z'],
    ['L0v', 'K z|b', W('dn2', 'sym')],
]
CAT = [
    [['cat', ['L0v='], ['L1o1=']]],
    [['cat', ['L0v', W('dn4', 'com')], ['L1=']], 'C'],
    [['cat', ['L0v='], ['N1=']], W('dn2', 'sym')],
    [['cat', ['L0v', W('dn2', 'com')], ['L1o2', 'C', W('dn4', 'com')]]],
    [['cat', ['L0o2=', 'K c|a'], ['L1=']], 'K d|c'],
]


def tasks(tier):
    out = []
    for given in ('c', '', 'co', 'o'):
        for spec in ONE:
            if given in ('co', 'o') and len(spec) > 2:
                continue
            spec = ['K#1,0' if op == 'K1,0' else op for op in spec]
            out.append(('late', dict(spec=spec, given=given)))
    for spec in NAMED + CAT:
        out.append(('late', dict(spec=spec, given='c')))
    for spec in CAT[:4]:
        out.append(('late', dict(spec=spec, given='')))
    for spec in ONE[1:6] + [ONE[9]]:
        spec = ['K#1,0' if op == 'K1,0' else op for op in spec]
        out.append(('late', dict(spec=spec, given='c', mirror=False)))
    return out
