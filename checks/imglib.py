"""
Reference semantics of renderings: every operation is applied to the tree and
to a plain picture (h, w, list of channels, pixel function) side by side.
"""
import numpy as np
from vlib import symimg
from delayed_image.delayed_leafs import DelayedIdentity, DelayedLoad, DelayedNans
from delayed_image.delayed_nodes import DelayedChannelConcat

NAMES = ['a|b|c', 'd|e', 'f', 'g|h|i|j']
NAN = float('nan')


class Pic:
    """h, w, at(y, x, k); names: list of channel names or None"""

    def __init__(self, h, w, n, at, names):
        self.h, self.w, self.n, self.at, self.names = h, w, n, at, names

    def crop(self, y0, y1, x0, x1):
        at = self.at
        return Pic(y1 - y0, x1 - x0, self.n, lambda y, x, k: at(y + y0, x + x0, k), self.names)

    def take(self, idxs):
        at = self.at
        n = self.n
        return Pic(self.h, self.w, len(idxs), lambda y, x, k: at(y, x, idxs[k] % n),
                   None if self.names is None else [self.names[i] for i in idxs])

    def nans(self, n, names):
        return Pic(self.h, self.w, n, lambda y, x, k: NAN, names)


def cat(pics):
    table = [(p, k) for p in pics for k in range(p.n)]
    names = [n for p in pics for n in ([None] if p.names is None else p.names)]
    return Pic(pics[0].h, pics[0].w, len(table), lambda y, x, k: table[k][0].at(y, x, table[k][1]),
               None if None in names else names)


def window(ctx, start, stop, D):
    """python's slice semantics: (first, one past last) of a step-1 slice"""
    def norm(v, default):
        if v is None:
            return default
        return ctx.ite(v < 0, ctx.ite(v + D < 0, 0, v + D), ctx.ite(v > D, D, v))
    a = norm(start, 0)
    b = norm(stop, D)
    return a, ctx.ite(b < a, a, b)


class Bench:
    def __init__(self, ctx, lo=1, hi=48):
        self.ctx = ctx
        self.lo, self.hi = lo, hi
        self.n = 0
        if ctx.symbolic:
            symimg.install()

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def size(self):
        c = self.ctx
        return c.int(self.name('w'), self.lo, self.hi), c.int(self.name('h'), self.lo, self.hi)

    def leaf(self, kind, k, size=None, dtype='int32'):
        """kind I: in-memory array (G: without a channel axis), F: file with kind[1:] stored overviews, N: no data"""
        ctx = self.ctx
        w, h = self.size() if size is None else size
        names = NAMES[k].split('|')[:1 if kind[0] == 'G' else None]
        n = len(names)
        if kind[0] == 'G':
            data = symimg.image(ctx, h, w, 1, k + 1, 0, dtype)[:, :, 0]
            return DelayedIdentity(data, channels=names[0]), Pic(h, w, 1, lambda y, x, c: symimg.code(k + 1, 0, y, x, 0), names)
        if kind[0] == 'N':
            return DelayedNans(dsize=(w, h), channels=NAMES[k]), Pic(h, w, n, lambda y, x, c: NAN, names)
        pic = Pic(h, w, n, lambda y, x, c: symimg.code(k + 1, 0, y, x, c), names)
        if kind[0] == 'I':
            unnamed = kind.endswith('u')
            node = DelayedIdentity(symimg.image(ctx, h, w, n, k + 1, 0, dtype), channels=None if unnamed else NAMES[k])
            if unnamed:
                pic.names = None
            return node, pic
        nov = int(kind[1:] or 0)
        node = DelayedLoad('/nowhere/leaf%d.tif' % k, channels=NAMES[k], dsize=(w, h), num_overviews=nov)
        node.lazy_ref = symimg.pyramid(ctx, h, w, n, nov, k + 1, dtype)
        pic.levels = nov
        pic.leaf = k + 1
        return node, pic

    def bound(self, which, D):
        """a slice bound: None or any integer around the image"""
        ctx = self.ctx
        if not ctx.flag(self.name('has_' + which)):
            return None
        v = ctx.int(self.name(which), -2 * self.hi, 2 * self.hi)
        return v

    def look(self, final, pic, label):
        """the rendered array equals the picture"""
        ctx = self.ctx
        shape = tuple(final.shape)
        ctx.check(label, len(shape) == 3 and ctx.eq(shape, (pic.h, pic.w, pic.n)),
                  lambda: 'rendered shape %s instead of %s' % (shape, (pic.h, pic.w, pic.n)))
        return shape

    def pixels(self, final, pic, label, oy, ox, known=None):
        ctx = self.ctx
        for k in range(pic.n):
            try:
                got = symimg.pixel(final, oy, ox, k)
            except symimg.Opaque:
                ctx.reach('interpolated')
                return
            want = pic.at(oy, ox, k)
            ctx.check(label, symimg.same(ctx, got, want),
                      lambda: 'pixel (row %s, column %s, channel %s) is %s instead of %s' % (oy, ox, k, got, want), known=known)


def declared(ctx, node, pic, label):
    ctx.check(label, ctx.eq(tuple(node.shape), (pic.h, pic.w, pic.n)) ,
              lambda: 'declared shape %s instead of %s' % (node.shape, (pic.h, pic.w, pic.n)))
    ctx.check(label, ctx.eq(tuple(node.dsize), (pic.w, pic.h)), lambda: 'declared dsize %s' % (node.dsize,))
    ctx.check(label, ctx.eq(node.num_channels, pic.n))
    ch = node.channels
    ctx.check(label, (None if ch is None else list(ch.as_list())) == pic.names,
              lambda: 'channels %s instead of %s' % (ch, pic.names))
