"""
Padded crops (clip=False, wrap=False, optional padding) with symbolic windows
that may start before the image, end after it or miss it entirely: the declared
and rendered size is the window plus its padding, pixels of the window that lie
inside the image are copied and all others are the border value.
"""
from checks.imglib import Bench, Pic, declared, cat, NAN
from delayed_image.delayed_nodes import DelayedChannelConcat
from vlib import symimg
PROPERTY = 'P09'
EXPECT = ['declared', 'shape', 'inside', 'outside', 'optimized-shape', 'optimized-content']
BOUNDS = ('image sides in [1,48]; window starts in [-60,60] and stops up to [120]; padding in [0,16] per side; leaves: '
          'integer and float in-memory arrays, file, concatenation of two; no-data; padded crop after a crop, before a crop and twice; any bound or the whole window left out')
OUTSIDE = 'padding combined with clip or wrap (refused); images without a known size'
STUBS = symimg.STUBS
OPTS = dict(time_s=60, max_paths=4000, query_ms=6000)
OPTS_THOROUGH = dict(time_s=600, max_paths=100000)
BUDGET = {'quick': 130, 'thorough': 1800}


def harness(ctx, leaf, pad, axis='x', pre=None, chans=None, dtype='float64', empty=False, open='', then=None):
    b = Bench(ctx)
    if leaf == 'cat':
        n1, p1 = b.leaf('I', 0, dtype=dtype)
        n2, p2 = b.leaf('F', 1, (p1.w, p1.h), dtype=dtype)
        node, pic = DelayedChannelConcat([n1, n2]), cat([p1, p2])
    else:
        node, pic = b.leaf(leaf, 0, dtype=dtype)
    if pre:
        x0, y0 = ctx.int('px0', 0, b.hi), ctx.int('py0', 0, b.hi)
        x1, y1 = ctx.int('px1', 0, b.hi), ctx.int('py1', 0, b.hi)
        ctx.assume(ctx.all([x0 < x1, x1 <= pic.w, y0 < y1, y1 <= pic.h]))
        node = node.crop((slice(y0, y1), slice(x0, x1)))
        pic = pic.crop(y0, y1, x0, x1)
    # the window; the other axis is kept inside the image
    xs = [ctx.int('x0', -60, 60), ctx.int('x1', -60, 120)]
    ys = [ctx.int('y0', -60, 60), ctx.int('y1', -60, 120)]
    gap = 0 if empty else 1
    ctx.assume(ctx.all([xs[0] + gap <= xs[1], ys[0] + gap <= ys[1]]))
    if axis == 'x':
        ctx.assume(ctx.all([ys[0] >= 0, ys[1] <= pic.h]))
    elif axis == 'y':
        ctx.assume(ctx.all([xs[0] >= 0, xs[1] <= pic.w]))
    # bounds that are left out of the request
    if 'l' in open:
        ctx.assume(xs[0] == 0)
    if 'r' in open:
        ctx.assume(xs[1] == pic.w)
    if 't' in open:
        ctx.assume(ys[0] == 0)
    if 'b' in open:
        ctx.assume(ys[1] == pic.h)
    window = (slice(None if 't' in open else ys[0], None if 'b' in open else ys[1]),
              slice(None if 'l' in open else xs[0], None if 'r' in open else xs[1]))
    px = py = (0, 0)
    kw = {}
    if pad == 'one':
        p = ctx.int('pad', 0, 16)
        px = py = (p, p)
        kw['pad'] = p
    elif pad == 'two':
        p, q = ctx.int('padx', 0, 16), ctx.int('pady', 0, 16)
        px, py = (p, p), (q, q)
        kw['pad'] = [q, p]
    elif pad == 'four':
        px = (ctx.int('padl', 0, 16), ctx.int('padr', 0, 16))
        py = (ctx.int('padt', 0, 16), ctx.int('padb', 0, 16))
        kw['pad'] = [py, px]
    new = node.crop(None if open == 'ltrb' else window, chans, clip=False, wrap=False, **kw)
    src = pic if chans is None else pic.take(chans)
    bx, by = xs[0] - px[0], ys[0] - py[0]
    want = Pic(ys[1] - ys[0] + py[0] + py[1], xs[1] - xs[0] + px[0] + px[1], src.n, None, src.names)
    seen = None
    if then == 'crop':
        # a window of the padded image
        u0, u1 = ctx.int('u0', 0, 250), ctx.int('u1', 0, 250)
        ctx.assume(ctx.all([u0 < u1, u1 <= want.w]))
        new, bx, want = new.crop((slice(None), slice(u0, u1))), bx + u0, Pic(want.h, u1 - u0, src.n, None, src.names)
    elif then == 'pad':
        # padded again
        m, q = ctx.int('padm', 0, 8), ctx.int('padn', 0, 8)
        new = new.crop(None, clip=False, wrap=False, pad=[(q, m), (m, 0)])
        seen = (bx, bx + want.w, by, by + want.h)
        bx, by, want = bx - m, by - q, Pic(want.h + m + q, want.w + m, src.n, None, src.names)
    declared(ctx, new, want, 'declared')
    plain = new.finalize(optimize=False)
    b.look(plain, want, 'shape')
    opt = new.finalize()
    b.look(opt, want, 'optimized-shape')
    oy = ctx.int('oy', 0, 250)
    ox = ctx.int('ox', 0, 250)
    ctx.assume(ctx.all([oy < want.h, ox < want.w]))
    sy, sx = oy + by, ox + bx
    inside = [sy >= 0, sy < src.h, sx >= 0, sx < src.w]
    if seen is not None:
        inside += [sx >= seen[0], sx < seen[1], sy >= seen[2], sy < seen[3]]
    inside = ctx.all(inside)
    border = NAN if 'float' in dtype else 0
    for k in range(src.n):
        a, o = symimg.pixel(plain, oy, ox, k), symimg.pixel(opt, oy, ox, k)
        if inside:
            ctx.check('inside', symimg.same(ctx, a, src.at(sy, sx, k)),
                      lambda: 'pixel (%s,%s,%s) is %s instead of %s' % (oy, ox, k, a, src.at(sy, sx, k)))
        else:
            ctx.check('outside', symimg.same(ctx, a, border), lambda: 'pixel (%s,%s,%s) is %s' % (oy, ox, k, a))
        ctx.check('optimized-content', symimg.same(ctx, a, o), lambda: 'pixel (%s,%s,%s) is %s instead of %s' % (oy, ox, k, o, a))


def tasks(tier):
    H = 'harness'
    out = []
    for axis in ('x', 'y'):
        out.append((H, dict(leaf='I', pad=None, axis=axis)))
        out.append((H, dict(leaf='I', pad='one', axis=axis, dtype='int32')))
        out.append((H, dict(leaf='F', pad='two', axis=axis)))
        out.append((H, dict(leaf='I', pad='four', axis=axis)))
    out.append((H, dict(leaf='cat', pad=None, axis='x')))
    out.append((H, dict(leaf='cat', pad='one', axis='y', dtype='int32')))
    out.append((H, dict(leaf='I', pad=None, axis='x', pre=True)))
    out.append((H, dict(leaf='I', pad='one', axis='y', pre=True)))
    out.append((H, dict(leaf='I', pad=None, axis='x', chans=[2, 0])))
    out.append((H, dict(leaf='cat', pad='one', axis='y', chans=[4, 1])))
    out.append((H, dict(leaf='I', pad=None, axis='xy')))
    out.append((H, dict(leaf='I', pad='four', axis='xy', empty=True)))
    out.append((H, dict(leaf='I', pad='four', axis='xy', open='ltrb')))
    out.append((H, dict(leaf='cat', pad='one', axis='xy', open='ltrb', dtype='int32')))
    out.append((H, dict(leaf='F', pad='two', axis='y', open='lr', empty=True)))
    out.append((H, dict(leaf='I', pad=None, axis='xy', open='rt', dtype='uint8')))
    out.append((H, dict(leaf='I', pad='one', axis='x', open='b', pre=True)))
    out.append((H, dict(leaf='N', pad='one', axis='xy')))
    out.append((H, dict(leaf='N', pad='four', axis='xy', open='ltrb')))
    out.append((H, dict(leaf='G', pad='one', axis='xy')))
    out.append((H, dict(leaf='G', pad=None, axis='x', chans=[0, 0], dtype='int32')))
    for leaf in ('I', 'cat'):
        out.append((H, dict(leaf=leaf, pad='one', axis='x', then='crop')))
        out.append((H, dict(leaf=leaf, pad='one', axis='x', open='tb', then='pad')))
    if tier == 'thorough':
        for leaf in ('I', 'F', 'cat'):
            for pad in (None, 'one', 'four'):
                out.append((H, dict(leaf=leaf, pad=pad, axis='xy')))
        out.append((H, dict(leaf='I', pad='two', axis='xy', pre=True)))
    return out
