"""
Channel selection by name and by index.  Names carry solver-variable numbers,
so every way the requested names can coincide with the available ones (present,
missing, repeated, spread over several concatenated images) is explored; indices
are solver variables over the whole valid range.  Content is compared pixel by
pixel with the channel of the same name.
"""
import numpy as np
from checks.imglib import Bench, Pic, declared, cat, NAN
from checks.chanlib import Spec
from delayed_image.delayed_nodes import DelayedChannelConcat
from delayed_image.delayed_leafs import DelayedIdentity, DelayedLoad, DelayedNans
from vlib import symimg
PROPERTY = 'P10'
EXPECT = ['declared', 'shape', 'content', 'optimized-shape', 'optimized-content', 'missing-error', 'source-unchanged']
BOUNDS = ('image sides in [1,48]; up to 3 images with up to 3 channels each; channel numbers in [0,100000] (every '
          'coincidence of available and requested names); up to 3 requested indices, each anywhere in [-N,N+1], given as a list, tuple, array, single index or slice (any ends in [-N-1,N+1], steps 1, 2, -1) or none at all; '
          'selections of selections and of crops')
OUTSIDE = 'boolean channel selectors; lists of channel names; names that contain a slice over more than 3 channels'
STUBS = symimg.STUBS
OPTS = dict(time_s=45, max_paths=4000, query_ms=6000)
OPTS_THOROUGH = dict(time_s=400, max_paths=60000)
BUDGET = {'quick': 130, 'thorough': 2400}


def make(ctx, b, kind, channels, names, size, k):
    w, h = size
    n = len(names)
    pic = Pic(h, w, n, lambda y, x, c: symimg.code(k, 0, y, x, c), names)
    if kind == 'N':
        node = DelayedNans(dsize=(w, h), channels=channels)
        pic = Pic(h, w, n, lambda y, x, c: NAN, names)
    elif kind == 'F':
        node = DelayedLoad('/nowhere/leaf%d.tif' % k, channels=channels, dsize=(w, h), num_overviews=0)
        node.lazy_ref = symimg.pyramid(ctx, h, w, n, 0, k)
    elif kind == 'G':
        # an array without a channel axis
        node = DelayedIdentity(symimg.image(ctx, h, w, 1, k)[:, :, 0], channels=channels, dsize=(w, h))
    else:
        node = DelayedIdentity(symimg.image(ctx, h, w, n, k), channels=channels, dsize=(w, h))
    return node, pic


def tree(ctx, b, parts, specs):
    """parts: nested list of kinds; specs: one Spec (or number of unnamed channels) per leaf"""
    size = b.size()
    it = iter(enumerate(specs))

    def rec(p):
        if isinstance(p, str):
            k, sp = next(it)
            if isinstance(sp, int):
                node, pic = make(ctx, b, p, None, [None] * sp, size, k + 1)
                pic.names = None
                return node, pic
            return make(ctx, b, p, sp.text, sp.names[0], size, k + 1)
        subs = [rec(q) for q in p]
        return DelayedChannelConcat([s[0] for s in subs]), cat([s[1] for s in subs])
    return rec(parts)


def pick(pic, want):
    """the picture of a selection by name: the first channel of that name, or
    every channel as it is when the request is what the image already has"""
    if list(want) == list(pic.names):
        return pic, None
    src = [pic.names.index(n) if n in pic.names else None for n in want]
    return Pic(pic.h, pic.w, len(want), lambda y, x, k: NAN if src[k] is None else pic.at(y, x, src[k]), list(want)), src


def compare(ctx, b, node, pic):
    declared(ctx, node, pic, 'declared')
    plain = node.finalize(optimize=False)
    b.look(plain, pic, 'shape')
    opt = node.finalize()
    b.look(opt, pic, 'optimized-shape')
    oy = ctx.int('oy', 0, b.hi)
    ox = ctx.int('ox', 0, b.hi)
    ctx.assume(ctx.all([oy < pic.h, ox < pic.w]))
    b.pixels(plain, pic, 'content', oy, ox)
    b.pixels(opt, pic, 'optimized-content', oy, ox)


def by_name(ctx, parts, have, want, crop=False, then=None, policy=None):
    b = Bench(ctx)
    vals = {}
    specs = [Spec(ctx, p, exact=True, vals=vals) for p in have]
    req = Spec(ctx, want, exact=True, vals=vals)
    node, pic = tree(ctx, b, parts, specs)
    before = (node.num_channels, [list(n.channels.as_list()) for n in node._leafs()] if hasattr(node, '_leafs') else None)
    if crop:
        x0, y0 = ctx.int('x0', 0, b.hi), ctx.int('y0', 0, b.hi)
        x1, y1 = ctx.int('x1', 0, b.hi), ctx.int('y1', 0, b.hi)
        ctx.assume(ctx.all([x0 < x1, x1 <= pic.w, y0 < y1, y1 <= pic.h]))
        if crop == 'before':
            node, pic = node.crop((slice(y0, y1), slice(x0, x1))), pic.crop(y0, y1, x0, x1)
    missing = [n for n in req.names[0] if n not in pic.names]
    args = {} if policy is None else {'missing_channel_policy': policy}
    if policy == 'error' and missing:
        ctx.check('missing-error', ctx.raises(lambda: node.take_channels(req.text, **args), ValueError),
                  lambda: '%s are missing and nothing was raised' % missing)
        return
    new = node.take_channels(req.text, **args)
    pic2, _ = pick(pic, req.names[0])
    if crop == 'after':
        new, pic2 = new.crop((slice(y0, y1), slice(x0, x1))), pic2.crop(y0, y1, x0, x1)
    if then is not None:
        sel = Spec(ctx, then, exact=True, vals=vals)
        new = new.take_channels(sel.text)
        pic2, _ = pick(pic2, sel.names[0])
    compare(ctx, b, new, pic2)
    after = (node.num_channels, [list(n.channels.as_list()) for n in node._leafs()] if hasattr(node, '_leafs') else None)
    if not crop:
        ctx.check('source-unchanged', ctx.eq(before[0], after[0]) and before[1] == after[1])


def selector(ctx, form, n, N):
    """a selector of channels in one of the ways an array is indexed, and the
    positions it stands for"""
    if form == 'slice':
        a, b = ctx.choice('start', [None] + list(range(-N - 1, N + 2))), ctx.choice('stop', [None] + list(range(-N - 1, N + 2)))
        sl = slice(a, b, ctx.choice('step', [None, 2, -1]))
        return sl, list(range(N))[sl]
    idx = [ctx.choice('i%d' % k, range(-N, N + 2)) for k in range(n)]
    if form == 'int':
        return idx[0], idx
    if form == 'tuple':
        return tuple(idx), idx
    if form == 'array':
        return np.array(idx, dtype=np.int64), idx
    return list(idx), idx


def by_index(ctx, parts, have, n, crop=False, then=None, how='take', form='list'):
    b = Bench(ctx)
    specs = [Spec(ctx, p, exact=True) if isinstance(p, str) else p for p in have]
    node, pic = tree(ctx, b, parts, specs)
    N = pic.n
    sel, idx = selector(ctx, form, n, N)
    ok = all(-N <= i < N for i in idx)
    if how == 'error':
        def run():
            return node.take_channels(sel, missing_channel_policy='error')
    elif how == 'crop':
        def run():
            return node.crop(None, sel)
    elif how == 'getitem':
        def run():
            return node[:, :, sel]
    else:
        def run():
            return node.take_channels(sel)
    if not ok:
        def full():
            return run().finalize()
        ctx.check('declared', ctx.raises(full, IndexError), lambda: 'channel indices %s of %s were accepted' % (idx, N))
        return
    new = run()
    pic2 = pic.take(idx)
    if crop:
        x0, y0 = ctx.int('x0', 0, b.hi), ctx.int('y0', 0, b.hi)
        x1, y1 = ctx.int('x1', 0, b.hi), ctx.int('y1', 0, b.hi)
        ctx.assume(ctx.all([x0 < x1, x1 <= pic.w, y0 < y1, y1 <= pic.h]))
        new, pic2 = new.crop((slice(y0, y1), slice(x0, x1))), pic2.crop(y0, y1, x0, x1)
    if then is not None:
        new, pic2 = new.take_channels(list(then)), pic2.take(then)
    compare(ctx, b, new, pic2)


def tasks(tier):
    N, I = 'by_name', 'by_index'
    out = [
        (N, dict(parts='I', have=['m.A|m.B|x'], want='m.C|m.D')),
        (N, dict(parts='I', have=['m.A|m.B'], want='m.C', policy='error')),
        (N, dict(parts='F', have=['m.A|m.B|x'], want='x|m.C', crop='after')),
        (N, dict(parts='F', have=['m.A|m.B'], want='m.C|q|m.D', crop='before')),
        (N, dict(parts='N', have=['m.A|x'], want='x|m.B')),
        (N, dict(parts='I', have=['r|g|b'], want='rgb')),
        (N, dict(parts='I', have=['rgb|m.A'], want='m.B|b|g')),
        (N, dict(parts=['I', 'I'], have=['m.A|m.B', 'm.C|x'], want='m.D')),
        (N, dict(parts=['I', 'F'], have=['m.A|x', 'm.B|y'], want='y|m.C|x')),
        (N, dict(parts=['I', 'N'], have=['m.A|x', 'm.B'], want='m.C|m.D')),
        (N, dict(parts=['I', 'I'], have=['x|m.A', 'x|m.B'], want='m.C|x')),
        (N, dict(parts=['I', 'I'], have=['m.A', 'm.B'], want='m.C|m.D', policy='error')),
        (N, dict(parts=['I', 'I'], have=['m.A', 'm.B|x'], want='q|m.C|w|z|x', crop='after')),
        (N, dict(parts=['I', 'F'], have=['m.A|x', 'y'], want='m.B|y|x', then='m.C|x')),
        (N, dict(parts=['I', ['F', 'I']], have=['m.A', 'x|y', 'z'], want='z|m.B|x|y')),
        (N, dict(parts=['I', 'I'], have=['m.A:B', 'm.C'], want='m.D')),
        (N, dict(parts='I', have=['m.A:B|x'], want='x|m.C')),
        (N, dict(parts=['I', 'I'], have=['a|b', 'c|d'], want='a|b|c|d')),
        (N, dict(parts=['I', 'I'], have=['a|b', 'c|d'], want='b|c')),
        (I, dict(parts='I', have=['x|y|z'], n=2)),
        (I, dict(parts='I', have=[3], n=2, how='getitem')),
        (I, dict(parts='N', have=['x|y|z'], n=2, how='crop')),
        (I, dict(parts='F', have=['x|y|z'], n=1, crop=True)),
        (I, dict(parts=['I', 'F'], have=['x|y', 'z|w'], n=2)),
        (I, dict(parts=['I', 'F'], have=['x|y', 'z'], n=2, how='crop', crop=True)),
        (I, dict(parts=['I', 'I'], have=[2, 1], n=2)),
        (I, dict(parts=['I', 'I'], have=[2, 1], n=1, how='getitem', crop=True)),
        (I, dict(parts=['I', 'F'], have=['x|y', 'z'], n=2, how='error')),
        (I, dict(parts=['I', ['F', 'N']], have=['x', 'y|z', 'w'], n=2, then=[1, 0, 1])),
        (I, dict(parts=['I', 'I'], have=['x|y|z', 'w|v'], n=3, then=[-1, 0])),
        # arrays without a channel axis
        (N, dict(parts='G', have=['m.A'], want='m.B|m.C', crop='after')),
        (N, dict(parts=['G', 'I'], have=['m.A', 'x|y'], want='y|m.C', crop='after')),
        (I, dict(parts='G', have=['x'], n=2, crop=True)),
        (I, dict(parts='G', have=[1], n=1, how='getitem', form='int')),
        (I, dict(parts=['G', 'G'], have=['x', 'y'], n=2, then=[0, 0])),
        (I, dict(parts='G', have=['x'], n=0)),
        # the ways an array is indexed, and selections of nothing
        (I, dict(parts='I', have=['x|y|z'], n=0, how='getitem', form='slice')),
        (I, dict(parts='F', have=['x|y'], n=0, form='slice')),
        (I, dict(parts=['I', 'F'], have=['x|y', 'z'], n=0, how='getitem', form='slice')),
        (I, dict(parts=['I', 'I'], have=['x', 'y'], n=0, form='slice', then=[])),
        (I, dict(parts='I', have=[3], n=1, how='getitem', form='int')),
        (I, dict(parts=['I', 'F'], have=['x|y', 'z'], n=1, how='crop', form='int', crop=True)),
        (I, dict(parts='I', have=['x|y'], n=2, how='crop', form='array')),
        (I, dict(parts=['I', 'N'], have=['x|y', 'z'], n=2, how='getitem', form='tuple')),
        (I, dict(parts='I', have=['x|y'], n=0)),
        (I, dict(parts=['I', 'F'], have=['x|y', 'z'], n=0, crop=True)),
        (I, dict(parts=['I', ['F', 'N']], have=['x', 'y', 'z'], n=0, then=[])),
        (I, dict(parts=['I', 'F'], have=['x|y', 'z'], n=2, then=[])),
    ]
    if tier == 'thorough':
        out += [
            (N, dict(parts=['I', 'I', 'I'], have=['m.A|m.B', 'm.C|m.D', 'm.E'], want='m.F|m.G')),
            (N, dict(parts=['I', 'F'], have=['m.A|m.B', 'm.C|m.D'], want='m.E|m.F|m.G', crop='after')),
            (N, dict(parts=['I', 'F'], have=['m.A:B|x', 'm.C|y'], want='m.D|y|m.E', then='m.F')),
            (N, dict(parts=['I', ['F', 'N']], have=['m.A|m.B', 'm.C', 'm.D'], want='m.E|m.F', policy='error')),
            (I, dict(parts=['I', 'F', 'N'], have=['x|y|z', 'w|v', 'u'], n=3)),
            (I, dict(parts=['I', ['F', 'N']], have=['x|y', 'w|v', 'u'], n=3, crop=True)),
            (I, dict(parts='I', have=['x|y|z|w'], n=4)),
        ]
    return out
