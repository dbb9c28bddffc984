"""
Delayed trees with symbolic parameters, and what they mean.

A tree is described by a JSON list: first a leaf ("L0") or a concat node
(["cat", tree, tree, ...]) followed by operation strings:

  "L0=" "L0o2" "L0v" "L0u"   common size / stored overviews: 2, symbolic, not known
  "N0"            a leaf of NaN channels instead of a file
  "C"             crop, in-range non-empty slice with symbolic start/stop
  "C0"            crop, in-range slice that may be empty
  "C#1,0"         the same crop that also selects the channel indexes
  "K#2,0"         take_channels by integer index
  "K a|b"         take_channels by name
  "W <lin> <dsize> <algo>"   warp: linear part, 'auto'|'sym'|'same', algorithm row
  "O<k>"          get_overview(k)
  "Q"             dequantize
  "S"             warp whose dsize/offset are chosen so it might be a no-op

`meaning` computes, independently of the code under test, what every output
channel of a tree is: which channel of which leaf, through which affine map,
which windows restrict the data, which resampling settings apply.
"""
import kwimage
import numpy as np

import delayed_image
from delayed_image import delayed_nodes, delayed_leafs
from delayed_image.delayed_nodes import (
    DelayedChannelConcat, DelayedCrop, DelayedDequantize, DelayedOverview, DelayedWarp)
from delayed_image.delayed_leafs import DelayedLoad, DelayedNans, DelayedIdentity

LIN = {
    'id': (1.0, 0.0, 0.0, 1.0),
    'up2': (2.0, 0.0, 0.0, 2.0),
    'up15': (1.5, 0.0, 0.0, 1.5),
    'upx': (3.0, 0.0, 0.0, 1.25),
    'dn2': (0.5, 0.0, 0.0, 0.5),
    'dn4': (0.25, 0.0, 0.0, 0.25),
    'dn8': (0.125, 0.0, 0.0, 0.125),
    'dn3': (0.375, 0.0, 0.0, 0.375),
    'dnx': (0.25, 0.0, 0.0, 0.5),
    'dny': (0.75, 0.0, 0.0, 0.1875),
    'mix': (2.0, 0.0, 0.0, 0.25),
    'flip': (-1.0, 0.0, 0.0, 1.0),
    'rot90': (0.0, -1.0, 1.0, 0.0),
    'rot': (0.8, -0.6, 0.6, 0.8),
    'rotdn': (0.2, -0.15, 0.15, 0.2),
    'rotup': (2.0, -1.5, 1.5, 2.0),
    'shear': (1.0, 0.5, 0.0, 1.0),
}

ALGO = {
    'd': {},
    'n': {'interpolation': 'nearest'},
    'i': {'interpolation': 0},
    'c': {'interpolation': 'cubic', 'antialias': False},
    'a': {'interpolation': 'area', 'antialias': False, 'border_value': 7, 'noop_eps': 1e-4,
          'backend': 'skimage'},
    'b': {'interpolation': 'lanczos', 'border_value': 3, 'backend': 'cv2'},
    'm': {'antialias': False, 'border_value': (1, 2, 3), 'backend': 'itk'},
}
ALGO_KEYS = ['interpolation', 'antialias', 'border_value', 'noop_eps', 'backend']
ALGO_DEFAULT = {'interpolation': 'linear', 'antialias': True, 'border_value': 'auto',
                'noop_eps': 0, 'backend': 'auto'}

QUANT = {'orig_min': 0, 'orig_max': 1, 'quant_min': 0, 'quant_max': 255, 'nodata': 0}

CHANS = ['a|b|c', 'd|e', 'f', 'g|h|i|j']


class Builder:
    def __init__(self, ctx, lo=2, hi=48, off=12, den=4, mirror=False):
        self.ctx = ctx
        self.lo = lo
        self.hi = hi
        self.off = off
        self.den = den
        self.n = 0
        self.common = None
        self.leafs = []
        self.mirror = mirror    # use the same symbols for x and y

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def pair(self, xname, yname, lo, hi, kind='int'):
        """a fresh symbol per axis (one for both when mirrored)"""
        args = (self.den,) if kind == 'dyadic' else ()
        make = getattr(self.ctx, kind)
        x = make(xname, lo, hi, *args)
        y = x if self.mirror else make(yname, lo, hi, *args)
        return x, y

    def leaf(self, tok):
        ctx = self.ctx
        idx = int(tok[1])
        if tok[0] == 'N':
            dsize = self.common_dsize() if tok.endswith('=') else self.pair('w%d' % idx, 'h%d' % idx, self.lo, self.hi)
            leaf = DelayedNans(dsize=dsize, channels=CHANS[idx])
            self.leafs.append(leaf)
            return leaf
        if tok.endswith('='):
            w, h = self.common_dsize()
        else:
            w, h = self.pair('w%d' % idx, 'h%d' % idx, self.lo, self.hi)
        n_ov = ctx.int('ov%d' % idx, 0, 3) if 'v' in tok else int(tok.split('o')[1][0]) if 'o' in tok else 0
        if 'u' in tok:
            n_ov = None      # not known (in-memory data, unprepared file)
        if 'v' in tok:
            # case split: the number of stored overviews is used as an exponent
            for k in range(3):
                if n_ov == k:
                    n_ov = k
                    break
            else:
                n_ov = 3
        leaf = DelayedLoad('/nowhere/leaf%d.tif' % idx, channels=CHANS[idx], dsize=(w, h), num_overviews=n_ov)
        self.leafs.append(leaf)
        if self.common is None:
            self.common = (w, h)
        return leaf

    def common_dsize(self):
        if self.common is None:
            self.common = self.pair('cw', 'ch', self.lo, self.hi)
        return self.common

    def build(self, spec):
        if spec[0] == 'cat':
            spec = [spec]
        head = spec[0]
        if isinstance(head, (list, tuple)):
            assert head[0] == 'cat'
            parts = [self.build(p) for p in head[1:]]
            node = DelayedChannelConcat(parts)
        else:
            node = self.leaf(head)
        for op in spec[1:]:
            node = self.apply(node, op)
        return node

    def apply(self, node, op):
        ctx = self.ctx
        kind = op[0]
        if kind == 'C':
            w, h = node.dsize
            chans = None
            if '#' in op:
                chans = [int(i) for i in op.split('#')[1].split(',') if i]
            gap = 0 if op.startswith('C0') else 1
            x0, y0 = self.pair(self.name('x0_'), self.name('y0_'), 0, 4 * self.hi)
            x1, y1 = self.pair(self.name('x1_'), self.name('y1_'), 0, 4 * self.hi)
            ctx.assume(ctx.all([x0 + gap <= x1, x1 <= w, y0 + gap <= y1, y1 <= h]))
            return node.crop((slice(y0, y1), slice(x0, x1)), chans)
        if kind == 'K':
            if '#' in op:
                return node.take_channels([int(i) for i in op.split('#')[1].split(',') if i])
            return node.take_channels(op[1:].strip())
        if kind == 'W':
            _, lin, dk, algo = op.split()
            a, b, c, d = LIN[lin]
            if algo.endswith('0'):
                algo = algo[:-1]
                tx = ty = 0.0
            else:
                tx, ty = self.pair(self.name('tx'), self.name('ty'), -self.off, self.off, 'dyadic')
            T = kwimage.Affine.coerce(np.array([[a, b, tx], [c, d, ty], [0.0, 0.0, 1.0]]))
            kw = dict(ALGO[algo])
            if dk == 'sym':
                kw['dsize'] = self.pair(self.name('dw'), self.name('dh'), 1, self.hi)
            elif dk == 'same':
                kw['dsize'] = node.dsize
            elif dk == 'com':
                kw['dsize'] = self.common_dsize()
            else:
                assert dk == 'auto'
            new = node.warp(T, **kw)
            if dk == 'auto':
                nw, nh = new.dsize
                ctx.assume(ctx.all([nw >= 1, nh >= 1]))
            return new
        if kind == 'O':
            return node.get_overview(int(op[1:]))
        if kind == 'Q':
            return node.dequantize(dict(QUANT))
        raise KeyError(op)


# ---------------------------------------------------------------------------
# meaning


def mat(t):
    m = getattr(t, 'matrix', t)
    if m is None:
        return (1.0, 0.0, 0.0, 0.0, 1.0, 0.0)
    r = list(np.asarray(m).ravel())
    return tuple(r[0:6])


def compose(A, B):
    """A after B"""
    a, b, c, d, e, f = A
    g, h, i, j, k, l = B
    return (a * g + b * j, a * h + b * k, a * i + b * l + c,
            d * g + e * j, d * h + e * k, d * i + e * l + f)


EYE = (1.0, 0.0, 0.0, 0.0, 1.0, 0.0)
EDGE = 1e-6     # clear of the edges, whatever floating point rounds


class Chan:
    """what one output channel is"""
    __slots__ = ('leaf', 'index', 'T', 'windows', 'warps', 'overviews', 'overview_steps', 'events', 'nan')

    def __init__(self, leaf, index, nan=False):
        self.leaf = leaf
        self.index = index
        self.T = EYE               # leaf coordinates -> current coordinates
        self.windows = []          # (T, x0, y0, x1, y1, kind) in coordinates of T
        self.warps = []            # meta dicts, innermost first
        self.overviews = 0
        self.overview_steps = []
        self.events = []           # op kinds, innermost first
        self.nan = nan

    def copy(self):
        c = Chan(self.leaf, self.index, self.nan)
        c.T = self.T
        c.windows = list(self.windows)
        c.warps = list(self.warps)
        c.overviews = self.overviews
        c.overview_steps = list(self.overview_steps)
        c.events = list(self.events)
        return c


def meaning(node):
    """list of Chan, one per output channel"""
    if isinstance(node, DelayedChannelConcat):
        out = []
        for p in node.parts:
            out.extend(meaning(p))
        return out
    if isinstance(node, delayed_leafs.DelayedImageLeaf):
        n = node.num_channels
        return [Chan(node, i, isinstance(node, DelayedNans)) for i in range(n)]
    sub = [c.copy() for c in meaning(node.subdata)]
    meta = node.meta
    if isinstance(node, DelayedCrop):
        sl_y, sl_x = meta['space_slice']
        if meta['chan_idxs'] is not None:
            sub = [sub[i].copy() for i in meta['chan_idxs']]
        for c in sub:
            c.windows.append((c.T, sl_x.start, sl_y.start, sl_x.stop, sl_y.stop, 'crop'))
            c.T = compose((1.0, 0.0, -sl_x.start, 0.0, 1.0, -sl_y.start), c.T)
            c.events.append('crop')
    elif isinstance(node, DelayedWarp):
        M = mat(meta['transform'])
        w, h = node.dsize
        for c in sub:
            c.T = compose(M, c.T)
            c.warps.append({k: meta[k] for k in ALGO_KEYS})
            c.windows.append((c.T, 0, 0, w, h, 'warp'))
            c.events.append('warp')
    elif isinstance(node, DelayedOverview):
        k = meta['overview']
        s = 1.0 / 2 ** k
        w, h = node.dsize
        for c in sub:
            c.T = compose((s, 0.0, 0.0, 0.0, s, 0.0), c.T)
            c.overviews = c.overviews + k
            c.overview_steps.append(k)
            c.windows.append((c.T, 0, 0, w, h, 'overview'))
            c.events.append('overview')
    elif isinstance(node, DelayedDequantize):
        for c in sub:
            c.events.append(('dequantize', repr(sorted((meta['quantization'] or {}).items()))))
    else:
        for c in sub:
            c.events.append(type(node).__name__)
    return sub


def inv_point(T, x, y):
    a, b, c, d, e, f = T
    det = a * e - b * d
    u = x - c
    v = y - f
    return (e * u - b * v) / det, (a * v - d * u) / det


def fwd(T, x, y):
    a, b, c, d, e, f = T
    return a * x + b * y + c, d * x + e * y + f


def invert(T):
    a, b, c, d, e, f = T
    det = a * e - b * d
    ia, ib, id_, ie = e / det, -b / det, -d / det, a / det
    return (ia, ib, -(ia * c + ib * f), id_, ie, -(id_ * c + ie * f))


def bbox(T, W, H):
    """bounding box of the image of [0,W]x[0,H] under T"""
    a, b, c, d, e, f = T

    def lo(k, n):
        return k * n if k < 0 else 0.0

    def hi(k, n):
        return k * n if k > 0 else 0.0
    return (lo(a, W) + lo(b, H) + c, lo(d, W) + lo(e, H) + f,
            hi(a, W) + hi(b, H) + c, hi(d, W) + hi(e, H) + f)


def visible(ctx, chan, dsize):
    """some point of the output canvas (a solver variable) shows the leaf
    through every window of the chain; as an assumption this says: there is
    such a point"""
    W, H = dsize
    if getattr(ctx, 'point', None) is None:
        ctx.point = ctx.dyadic('px', 0, 256, 16), ctx.dyadic('py', 0, 256, 16)
    px, py = ctx.point
    conds = [px < W, py < H]
    back = invert(chan.T)
    lw, lh = chan.leaf.dsize
    for (T, x0, y0, x1, y1, kind) in [(EYE, 0, 0, lw, lh, 'leaf')] + chan.windows:
        x, y = fwd(compose(T, back), px, py)
        conds += [x > x0 + EDGE, x < x1 - EDGE, y > y0 + EDGE, y < y1 - EDGE]
    return ctx.all(conds)


def chan_names(node):
    ch = node.channels
    return None if ch is None else list(ch.as_list())


# ---------------------------------------------------------------------------
# configuration lists


def W(lin, dk='auto', algo='d'):
    return 'W %s %s %s' % (lin, dk, algo)
