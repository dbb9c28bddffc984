"""
What kwimage.warp_affine and kwimage.imresize do to positions.

Pictures whose pixel value is a linear function of its coordinates show at every
rendered pixel which source position was sampled: interpolation reproduces the
linear function.  The model keeps exactly that: an interpolating warp gives the
value of the source at the mapped (fractional) position, a nearest warp the value
of the nearest source pixel, outside of the source the border value.  Positions
less than one pixel beyond the edge, where an interpolation mixes image and
border, are `Opaque` (solver) or infinite (replay).
Every call is logged with its options.
"""
import contextlib
import math

import numpy as np
from vlib import sym, symimg
from vlib.symimg import Img, Opaque

EPS = 1e-9


def matrix(transform):
    m = getattr(transform, 'matrix', transform)
    if m is None:
        return (1.0, 0.0, 0.0, 0.0, 1.0, 0.0)
    r = list(np.asarray(m).ravel())
    return tuple(r[0:6])


def invert(T):
    a, b, c, d, e, f = T
    det = a * e - b * d
    ia, ib, id_, ie = e / det, -b / det, -d / det, a / det
    return (ia, ib, -(ia * c + ib * f), id_, ie, -(id_ * c + ie * f))


def _whole(v):
    if isinstance(v, (int, np.integer, sym.SymInt)):
        return True
    return isinstance(v, float) and v == int(v)


def _abs(v):
    return -v if bool(v < 0) else v


def border_of(border_value, k, n):
    if not isinstance(border_value, (tuple, list)):
        return border_value
    if len(border_value) < min(4, n):
        # the components that are not given are zero
        return border_value[k] if k < len(border_value) else 0
    return border_value[k % 4 if len(border_value) == 4 else min(k, len(border_value) - 1)]


def mask_border(v):
    """the border of a warped mask: the library warps it as 8 bit image with the same border value"""
    if isinstance(v, float) and not math.isfinite(v):
        return False
    return bool(v >= 0.5)


class Model:
    def __init__(self):
        self.log = []

    def warp_affine(self, image, transform, dsize=None, antialias=False, interpolation='linear', border_mode=None,
                    border_value=0, large_warp_dim=None, origin_convention='center', return_info=False, backend='auto'):
        image = symimg._plain(image)
        if isinstance(image, np.ma.MaskedArray) and image.mask is np.ma.nomask:
            raise ValueError('max() iterable argument is empty')
        M = matrix(transform)
        if dsize is None:
            dsize = image.shape[1], image.shape[0]
        det = M[0] * M[4] - M[1] * M[3]
        if antialias and bool(det < 0):
            raise ValueError('math domain error')
        self.log.append(dict(call='warp_affine', M=M, dsize=dsize, antialias=antialias, interpolation=interpolation,
                             border_mode=border_mode, border_value=border_value, backend=backend))
        inv = invert(M)
        half = 0.5 if origin_convention == 'corner' else 0.0
        return self._result(image, dsize, inv, half, interpolation, border_value, border_mode)

    def imresize(self, img, scale=None, dsize=None, max_dim=None, min_dim=None, interpolation=None, grow_interpolation=None,
                 letterbox=False, return_info=False, antialias=False, border_value=0, backend='auto'):
        img = symimg._plain(img)
        assert dsize is not None and not letterbox and max_dim is None and min_dim is None
        W, H = dsize
        h, w = img.shape[0], img.shape[1]
        self.log.append(dict(call='imresize', dsize=dsize, interpolation=interpolation, antialias=antialias))
        if interpolation == 'nearest':
            return self._nearest_resize(img, w, h, W, H)
        sx, sy = _div(w, W), _div(h, H)
        return self._result(img, dsize, (sx, 0.0, 0.0, 0.0, sy, 0.0), 0.5, interpolation, None, 'replicate')

    def _nearest_resize(self, img, w, h, W, H):
        if isinstance(img, Img):
            src = img.at

            def at(y, x, *k):
                return src((y * h) // H, (x * w) // W, *k)
            return Img((H, W) + img.shape[2:], at, img.dtype)
        ys = (np.arange(int(H)) * h) // H
        xs = (np.arange(int(W)) * w) // W
        return np.ma.getdata(img)[ys][:, xs]

    def _result(self, image, dsize, inv, half, interpolation, border_value, border_mode):
        W, H = dsize
        h, w = image.shape[0], image.shape[1]
        near = interpolation in ('nearest', 0)
        const = border_mode in (None, 'constant', 0) and not isinstance(border_value, str)
        n = image.shape[2] if image.ndim > 2 else 1
        ia, ib, ic, id_, ie, if_ = inv
        if isinstance(image, Img):
            src = image.at
            rx = abs(ia) + abs(ib)
            ry = abs(id_) + abs(ie)

            def at(y, x, *k):
                px = ia * (x + half) + ib * (y + half) + ic - half
                py = id_ * (x + half) + ie * (y + half) + if_ - half
                fill = border_of(border_value, k[0] if k else 0, n)
                if near:
                    if not (_whole(y) and _whole(x)):
                        raise Opaque()
                    qx, qy = math.floor(px + 0.5), math.floor(py + 0.5)
                    if bool((qx >= 0) & (qx < w) & (qy >= 0) & (qy < h)):
                        return src(qy, qx, *k)
                    if not const:
                        raise Opaque()
                    return fill
                mx, my = (0, 0) if _whole(y) and _whole(x) else (rx, ry)
                if bool((px >= mx) & (px <= w - 1 - mx) & (py >= my) & (py <= h - 1 - my)):
                    return src(py, px, *k)
                if const and bool((px <= -1 - mx) | (px >= w + mx) | (py <= -1 - my) | (py >= h + my)):
                    return fill
                raise Opaque()

            mask = None
            if image.mask is not None:
                m = image.mask.at

                def mat_(y, x, *k):
                    px = ia * (x + half) + ib * (y + half) + ic - half
                    py = id_ * (x + half) + ie * (y + half) + if_ - half
                    edge = const and mask_border(border_of(border_value, k[0] if k else 0, n))
                    v = m(py, px, *k)       # only masks that do not depend on the position
                    if not isinstance(v, (bool, np.bool_)):
                        raise Opaque()
                    if const and bool(v) == edge:
                        return edge
                    if bool((px >= 0) & (px <= w - 1) & (py >= 0) & (py <= h - 1)):
                        return bool(v)
                    if const and bool((px <= -1) | (px >= w) | (py <= -1) | (py >= h)):
                        return edge
                    raise Opaque()
                mask = Img((H, W) + image.shape[2:], mat_, bool)
            return Img((H, W) + image.shape[2:], at, image.dtype, mask=mask, fill_value=image.fill_value)
        masked = isinstance(image, np.ma.MaskedArray)
        mask = np.ma.getmaskarray(image)
        image = np.ma.getdata(image)
        solid = None
        if masked:
            # per channel: the mask of all pixels (None: differs)
            solid = [bool(m.all()) if m.size and m.all() == m.any() else None for m in np.moveaxis(mask.reshape(h, w, n), 2, 0)]
        y, x = np.mgrid[0:int(H), 0:int(W)]
        px = ia * (x + half) + ib * (y + half) + ic - half
        py = id_ * (x + half) + ie * (y + half) + if_ - half
        px0, py0 = px, py
        shape = (int(H), int(W)) + image.shape[2:]
        fill = np.array([border_of(border_value, k, n) if const else np.inf for k in range(n)], dtype=float)
        out = np.empty((int(H), int(W), n))
        out[...] = fill
        src = image.reshape(h, w, n).astype(float)
        if near:
            qx, qy = np.floor(px + 0.5).astype(int), np.floor(py + 0.5).astype(int)
            ok = (qx >= 0) & (qx < w) & (qy >= 0) & (qy < h)
            out[ok] = src[qy[ok], qx[ok]]
        elif h and w:
            out[~((px <= -1) | (px >= w) | (py <= -1) | (py >= h))] = np.inf
            ok = (px >= -EPS) & (px <= w - 1 + EPS) & (py >= -EPS) & (py <= h - 1 + EPS)
            px, py = px[ok], py[ok]
            x0 = np.clip(np.floor(px + EPS).astype(int), 0, w - 1)
            y0 = np.clip(np.floor(py + EPS).astype(int), 0, h - 1)
            x1, y1 = np.minimum(x0 + 1, w - 1), np.minimum(y0 + 1, h - 1)
            fx, fy = (px - x0)[:, None], (py - y0)[:, None]
            a, b, c, d = src[y0, x0], src[y0, x1], src[y1, x0], src[y1, x1]
            b, d = np.where(np.abs(fx) < EPS, a, b), np.where(np.abs(fx) < EPS, c, d)
            c, d = np.where(np.abs(fy) < EPS, a, c), np.where(np.abs(fy) < EPS, b, d)
            with np.errstate(invalid='ignore'):
                v = (a * (1 - fx) + b * fx) * (1 - fy) + (c * (1 - fx) + d * fx) * fy
            nan = [np.isnan(t) for t in (a, b, c, d)]
            some, every = nan[0] | nan[1] | nan[2] | nan[3], nan[0] & nan[1] & nan[2] & nan[3]
            bad = ~(np.isfinite(a) & np.isfinite(b) & np.isfinite(c) & np.isfinite(d))
            v = np.where(every, np.nan, np.where(some | bad, np.inf, v))
            out[ok] = v
        if image.dtype.kind in 'iu':
            out = np.where(np.isfinite(out), out, 0)
        out = out.reshape(shape).astype(image.dtype)
        if masked:
            newmask = np.zeros((int(H), int(W), n), bool)
            far = (px0 <= -1) | (px0 >= w) | (py0 <= -1) | (py0 >= h)
            near_ = (px0 >= -EPS) & (px0 <= w - 1 + EPS) & (py0 >= -EPS) & (py0 <= h - 1 + EPS)
            for k in range(n):
                edge = const and mask_border(border_of(border_value, k, n))
                v = solid[k]
                newmask[..., k] = edge if const and v == edge else np.where(far, edge, np.where(near_, bool(v), False))
            return np.ma.array(out, mask=newmask.reshape(shape))
        return out


def _div(a, b):
    return a / b


@contextlib.contextmanager
def modelled():
    import kwimage
    m = Model()
    with symimg.replaced(kwimage, 'warp_affine', m.warp_affine), symimg.replaced(kwimage, 'imresize', m.imresize):
        yield m
