"""
Crops with symbolic slice bounds (missing, negative, beyond the edge, reversed)
over images of symbolic size: declared size and rendered content are compared
with numpy slicing, for crops of crops and for crops that also select channels.
"""
from checks.imglib import Bench, Pic, window, declared, cat
from delayed_image.delayed_leafs import DelayedIdentity
from delayed_image.delayed_nodes import DelayedChannelConcat
from vlib import symimg
PROPERTY = 'P08'
EXPECT = ['declared', 'shape', 'content', 'optimized-shape', 'optimized-content']
BOUNDS = ('image sides in [1,48]; every slice bound None or any integer in [-96,96]; up to 3 crops in a row (quick: 2 '
          'with free bounds); channel lists from the table in checks/p08.py, and any list of up to 5 (thorough: 6) of 6 channels, also none; leaves: in-memory array, file, no-data, '
          'concatenation of two')
OUTSIDE = 'slices with a step; images without a known size'
STUBS = symimg.STUBS
OPTS = dict(time_s=45, max_paths=3000, query_ms=6000)
OPTS_THOROUGH = dict(time_s=600, max_paths=100000)
BUDGET = {'quick': 130, 'thorough': 2400}


def harness(ctx, leaf, crops, via='crop'):
    b = Bench(ctx)
    if leaf == 'cat':
        n1, p1 = b.leaf('I', 0)
        n2, p2 = b.leaf('F', 1, (p1.w, p1.h))
        node, pic = DelayedChannelConcat([n1, n2]), cat([p1, p2])
    elif leaf == 'wide':
        h, w = ctx.int('h', 1, b.hi), ctx.int('w', 1, b.hi)
        node = DelayedIdentity(symimg.image(ctx, h, w, 6, 1, 0))
        pic = Pic(h, w, 6, lambda y, x, k: symimg.code(1, 0, y, x, k), None)
    else:
        node, pic = b.leaf(leaf, 0)
    for kind in crops:
        if 'n' in kind:
            sl = None
        else:
            if 'x' in kind:
                ys = (None, None)
                xs = (b.bound('x0_', pic.w), b.bound('x1_', pic.w))
            elif 'y' in kind:
                ys = (b.bound('y0_', pic.h), b.bound('y1_', pic.h))
                xs = (None, None)
            elif 's' in kind:       # plain windows
                xs = (ctx.int(b.name('x0_'), 0, b.hi), ctx.int(b.name('x1_'), 0, 2 * b.hi))
                ys = (ctx.int(b.name('y0_'), 0, b.hi), ctx.int(b.name('y1_'), 0, 2 * b.hi))
            else:
                ys = (b.bound('y0_', pic.h), b.bound('y1_', pic.h))
                xs = (b.bound('x0_', pic.w), b.bound('x1_', pic.w))
            sl = (slice(*ys), slice(*xs))
            y0, y1 = window(ctx, ys[0], ys[1], pic.h)
            x0, x1 = window(ctx, xs[0], xs[1], pic.w)
        chans = None
        if '#' in kind:
            chans = [int(c) for c in kind.split('#')[1].split(',') if c]
        if '?' in kind:
            # any channels, also negative and repeated ones
            chans = [ctx.int(b.name('c'), -pic.n, pic.n - 1) for _ in range(int(kind.split('?')[1]))]
        if via == 'getitem' and sl is not None:
            node = node[sl] if chans is None else node[sl + (chans,)]
        else:
            node = node.crop(sl, chans)
        if sl is not None:
            pic = pic.crop(y0, y1, x0, x1)
        if chans is not None:
            pic = pic.take(chans)
    declared(ctx, node, pic, 'declared')
    plain = node.finalize(optimize=False)
    b.look(plain, pic, 'shape')
    opt = node.finalize()
    b.look(opt, pic, 'optimized-shape')
    oy = ctx.int('oy', 0, b.hi)
    ox = ctx.int('ox', 0, b.hi)
    ctx.assume(ctx.all([oy < pic.h, ox < pic.w]))
    b.pixels(plain, pic, 'content', oy, ox)
    b.pixels(opt, pic, 'optimized-content', oy, ox)


def tasks(tier):
    H = 'harness'
    out = []
    for via in ('crop', 'getitem'):
        out.append((H, dict(leaf='I', crops=['f'], via=via)))
        out.append((H, dict(leaf='Iu', crops=['f#2,0'], via=via)))
    out += [(H, dict(leaf=l, crops=['f'])) for l in ('F', 'N')]
    out += [(H, dict(leaf='cat', crops=['x'])), (H, dict(leaf='cat', crops=['y'])), (H, dict(leaf='cat', crops=['s']))]
    out += [(H, dict(leaf=l, crops=['x', 'x'])) for l in ('I', 'N', 'F')]
    out += [(H, dict(leaf=l, crops=['y', 'y'])) for l in ('I', 'F')]
    out += [(H, dict(leaf='I', crops=['s', 's'])), (H, dict(leaf='F', crops=['x', 'y'])),
            (H, dict(leaf='I', crops=['s#2,1,0', 's#2,0'])), (H, dict(leaf='N', crops=['s#2,1', 's'])),
            (H, dict(leaf='I', crops=['n#2,0', 's#-1'])), (H, dict(leaf='I', crops=['s', 'n#1,2,0', 's#1,1'])),
            (H, dict(leaf='I', crops=['s#-1,0', 's#-2,-1'])),
            (H, dict(leaf='N', crops=['n#2,0', 's'])), (H, dict(leaf='N', crops=['s#1,0', 'n#1'])),
            (H, dict(leaf='cat', crops=['s', 's'])), (H, dict(leaf='cat', crops=['s', 's#4,0'])),
            (H, dict(leaf='cat', crops=['n#4,2,0', 's'])), (H, dict(leaf='cat', crops=['s#1,3', 's#1,0']))]
    out += [(H, dict(leaf='wide', crops=['s?%d' % n])) for n in (1, 2, 4, 5)]
    out += [(H, dict(leaf='wide', crops=['s?2', 's?2'])), (H, dict(leaf='wide', crops=['x?4'], via='getitem')),
            (H, dict(leaf='wide', crops=['n?4', 's', 'n?2']))]
    out += [(H, dict(leaf=l, crops=c, via='getitem')) for l, c in (('cat', ['s']), ('cat', ['s#4,1', 's']), ('cat', ['s', 's#3,0']), ('F', ['s#1,0', 's']))]
    # no channel at all
    out += [(H, dict(leaf=l, crops=c)) for l, c in (('wide', ['s?0']), ('I', ['s#', 's']), ('F', ['s', 'n#']), ('N', ['s#']), ('Iu', ['n#', 's#']))]
    # arrays without a channel axis
    out += [(H, dict(leaf='G', crops=c)) for c in (['f'], ['s', 's'], ['s#0,0'], ['n#0', 's'], ['s', 'n?2', 's#1'])]
    if tier == 'thorough':
        out += [(H, dict(leaf='wide', crops=['s?6', 's?3', 's?2'])), (H, dict(leaf='wide', crops=['f?6']))]
        out += [(H, dict(leaf=l, crops=['f', 'f'])) for l in ('I', 'F', 'N', 'cat')]
        out += [(H, dict(leaf=l, crops=['s', 's', 's'])) for l in ('I', 'cat')]
        out += [(H, dict(leaf='I', crops=['x', 'x', 'x'])), (H, dict(leaf='cat', crops=['f']))]
        out += [(H, dict(leaf='cat', crops=['f#4,0,2', 'f#1,0']))]
    return out
