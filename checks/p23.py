"""
Rendering a warp: which source position every pixel shows, and with which options
the resampling library is called, for images, canvases and offsets of any size.
"""
import kwimage
import numpy as np
from checks.trees import LIN, compose, invert, fwd
from vlib import symimg, warpmodel
from vlib.symimg import CH, Img, code
from delayed_image.delayed_leafs import DelayedIdentity
from delayed_image.delayed_nodes import DelayedWarp
PROPERTY = 'P23'
EXPECT = ['shape', 'inside', 'outside', 'nearest', 'options', 'mask', 'antialias']
BOUNDS = ('image sides in [1,40], canvas sides in [1,40] or automatic, offsets every multiple of 1/4 in [-12,12], the linear parts of '
          'checks/trees.py (scales, flips, rotations, shear) for 1 to 5 channels; interpolation nearest, linear, cubic, area, lanczos, as text or as integer; '
          'border automatic, number, one number per channel, border mode; float, integer and masked pixels; every output pixel')
OUTSIDE = ('the interpolation arithmetic and antialiasing blur of the resampling library (N01); pixels that mix image and border, '
           'closer than one source pixel to the edge; content that is not linear in the position (which source position is sampled does '
           'not depend on the content); nearest sampling may differ by less than one output pixel from the exact position when the '
           'canvas size is the rounded image size')
STUBS = symimg.STUBS + ['kwimage.warp_affine, kwimage.imresize: vlib/warpmodel.py (positions, border and options, also in replays; '
                        'the replay calls the real function too and requires that it does not fail and has the same shape and type)']
OPTS = dict(time_s=25, max_paths=600, query_ms=6000)
OPTS_THOROUGH = dict(time_s=240, max_paths=8000, query_ms=20000)
BUDGET = {'quick': 130, 'thorough': 2400}
HI = 40
CODES = {0: 'nearest', 1: 'linear', 2: 'cubic', 3: 'area', 4: 'lanczos'}     # the integers of cv2
EPS = 1e-6


def one_axis(axis, y, x, k):
    return 1 + k * CH + (x if axis == 'x' else y)


def content(ctx, h, w, n, kind, axis):
    dtype = {'f': 'float64', 'g': 'float32', 'i': 'int32', 'u': 'uint8', 'mf': 'float64', 'mi': 'int32', 'nf': 'float64'}[kind]
    if axis is None:
        img = symimg.image(ctx, h, w, n, 1, 0, dtype)
    elif ctx.symbolic:
        img = Img((h, w, n), lambda y, x, k: one_axis(axis, y, x, k), dtype)
    else:
        y, x, k = np.mgrid[0:int(h), 0:int(w), 0:n]
        img = one_axis(axis, y, x, k).astype(dtype)
    if kind[0] == 'm':
        if ctx.symbolic:
            img = np.ma.array(img, mask=Img((h, w, n), lambda y, x, k: False, bool))
        else:
            img = np.ma.array(img, mask=np.zeros((h, w, n), bool))
    elif kind[0] == 'n':
        img = np.ma.array(img)
        if ctx.symbolic:
            img.mask = np.ma.nomask
    return img, np.dtype(dtype)


def expected_border(value, dtype, masked, k, fill_value):
    if value == 'auto':
        if dtype.kind == 'f':
            return symimg.MISSING
        return int(fill_value) if masked else 0
    if isinstance(value, tuple):
        return value[k]
    return value


def render(ctx, lin, off, canvas, kind, n, algo, axis=None):
    if ctx.symbolic:
        symimg.install()
    w, h = ctx.int('w', 1, HI), ctx.int('h', 1, HI)
    img, dtype = content(ctx, h, w, n, kind, axis)
    a, b, c, d = LIN[lin] if isinstance(lin, str) else lin
    if off == 'frac':
        tx, ty = ctx.dyadic('tx', -12, 12, 4), ctx.dyadic('ty', -12, 12, 4)
    elif off == 'int':
        tx, ty = ctx.int('tx', -12, 12) * 1.0, ctx.int('ty', -12, 12) * 1.0
    else:
        tx = ty = 0.0
    T = kwimage.Affine(np.array([[a, b, tx], [c, d, ty], [0.0, 0.0, 1.0]]))
    kw = dict(algo)
    if canvas == 'free':
        kw['dsize'] = ctx.int('W', 1, HI), ctx.int('H', 1, HI)
    elif canvas == 'same':
        kw['dsize'] = (w, h)
    node = DelayedWarp(DelayedIdentity(img), T, **kw)
    W, H = node.dsize
    ctx.assume(ctx.all([W >= 1, H >= 1, W <= 4 * HI, H <= 4 * HI]))
    with warpmodel.modelled() as model:
        final = node.finalize(prepare=False, optimize=False)
    if not ctx.symbolic:
        # the library accepts what it is given (whatever backend is installed)
        if algo.get('backend', 'auto') == 'auto' and dtype.kind == 'f':
            real = node.finalize(prepare=False, optimize=False)
            ctx.check('shape', real.shape == final.shape and real.dtype == final.dtype and type(real) is type(final),
                      lambda: 'rendered %s %s' % (real.shape, real.dtype))
    shape = tuple(final.shape)
    ctx.check('shape', len(shape) == 3 and ctx.eq(shape, (H, W, n)), lambda: 'shape %s instead of %s' % (shape, (H, W, n)))
    ctx.check('shape', final.dtype == dtype)
    masked = kind[0] in 'mn'
    ctx.check('mask', isinstance(final, np.ma.MaskedArray) == masked, 'kind of array')

    interp = algo.get('interpolation', 'linear')
    interp = CODES.get(interp, interp)
    shrink = abs(a) ** 2 + abs(c) ** 2 < 1 - 1e-9 or abs(b) ** 2 + abs(d) ** 2 < 1 - 1e-9
    grow = abs(a) ** 2 + abs(c) ** 2 > 1 - 1e-9 and abs(b) ** 2 + abs(d) ** 2 > 1 - 1e-9
    for entry in model.log:
        if entry['call'] != 'warp_affine':
            ctx.check('options', interp == 'nearest' and entry['interpolation'] in ('nearest', 0) and not entry['antialias'], 'resize')
            continue
        ctx.check('options', CODES.get(entry['interpolation'], entry['interpolation']) == interp, lambda: 'interpolation %s' % entry['interpolation'])
        ctx.check('options', entry['backend'] == algo.get('backend', 'auto'), lambda: 'backend %s' % entry['backend'])
        want = interp != 'nearest' and algo.get('antialias', True)
        if not want or lin not in ('shear',):
            ctx.check('antialias', bool(entry['antialias']) == bool(want and shrink), lambda: 'antialias %s' % entry['antialias'])
    if not model.log:
        # without the library: only copies of whole pixels
        whole = (a, b, c, d) == (1.0, 0.0, 0.0, 1.0) and ctx.all([tx == ctx.floor(tx), ty == ctx.floor(ty)])
        ctx.check('options', True if interp == 'nearest' else whole, 'neither resampled nor a whole pixel move')

    oy, ox = ctx.int('oy', 0, 4 * HI), ctx.int('ox', 0, 4 * HI)
    if not bool(ctx.all([oy < H, ox < W])):
        return
    inv = invert((a, b, tx, c, d, ty))
    px, py = fwd(inv, ox + 0.5, oy + 0.5)
    rx, ry = (abs(inv[0]) + abs(inv[1])) / 2, (abs(inv[3]) + abs(inv[4])) / 2
    if interp == 'nearest':
        if b == c == 0 and bool(ctx.all([tx == 0, ty == 0, W - a * w < 1, a * w - W < 1, H - d * h < 1, d * h - H < 1])):
            rx, ry = 3 * rx, 3 * ry     # a resize to the rounded size
    outside = ctx.any([px <= -1 - rx, px >= w + 1 + rx, py <= -1 - ry, py >= h + 1 + ry])
    border = algo.get('border_value', 'auto')
    fill_value = getattr(img, 'fill_value', None)
    is_out = bool(outside)
    mx, my = (rx, ry) if interp == 'nearest' else (0.5, 0.5)
    inside = not is_out and bool(ctx.all([px >= mx, px <= w - mx, py >= my, py <= h - my]))
    for k in range(n):
        if not (inside or is_out):
            break
        data = final.data if masked else final
        try:
            got = symimg.pixel(data, oy, ox, k)
        except symimg.Opaque:
            ctx.reach('interpolated')
            return
        if not ctx.symbolic and isinstance(got, float) and np.isinf(got):
            return
        if is_out:
            if border in ('replicate', 'reflect'):
                break
            want = expected_border(border, dtype, masked, k, fill_value)
            if dtype.kind in 'iu' and isinstance(want, int) and not np.iinfo(dtype).min <= want <= np.iinfo(dtype).max:
                break           # no pixel can hold it
            ctx.check('outside', symimg.same(ctx, got, want), lambda: 'border pixel is %s instead of %s' % (got, want))
        elif interp == 'nearest':
            # some whole source pixel that the output pixel covers
            v = got - one_axis(axis, 0, 0, k)
            p, r = (px, rx) if axis == 'x' else (py, ry)
            ctx.check('nearest', ctx.all([v >= 0, v < (w if axis == 'x' else h), v + 1 >= p - r - EPS, v <= p + r + EPS]),
                      lambda: 'pixel (%s,%s) shows source position %s=%s, expected near %s' % (ox, oy, axis, v, p))
        elif dtype.kind == 'f':
            want = code(1, 0, py - 0.5, px - 0.5, k)
            ctx.check('inside', ctx.close(got, want, 1e-3), lambda: 'pixel (%s,%s,%s) is %s instead of %s' % (ox, oy, k, got, want))


def tasks(tier):
    out = []

    def add(*lins, off='frac', canvas='free', kind='f', n=2, **algo):
        for lin in lins:
            kw = dict(lin=lin, off=off, canvas=canvas, kind=kind, n=n, algo=algo)
            for axis in ('xy' if algo.get('interpolation') in ('nearest', 0) else [None]):
                out.append(('render', dict(kw, axis=axis)))
    near = dict(interpolation='nearest')
    # geometry of interpolating warps
    add('id', 'up2', 'up15', 'upx', 'dn2', 'dn3', 'dnx', 'mix', 'flip', 'rot90', 'rot', 'rotdn', 'rotup', 'shear')
    add('id', off='int')
    add('id', off='int', kind='i')
    add('id', off='int', kind='u', border_value=7)
    add('id', off='int', kind='u', border_value=300)
    add('id', off='int', kind='mi')
    add('id', off='int', kind='i', n=3, border_value=(1, 2, 3))
    add('id', off='int', n=5, border_value=3)
    add('up2', 'dn2', 'rot', 'flip', off=None, canvas='auto', n=1)
    add('up2', 'dn4', off=None, canvas='same', n=3)
    add([-0.5, 0.0, 0.0, 0.5], [0.5, 0.0, 0.0, -2.0], [-0.5, 0.0, 0.0, -0.5], [0.0, 0.5, 0.5, 0.0])
    # options
    add('dn2', 'up2', 'rotdn', antialias=False)
    add('up15', 'dn3', interpolation='cubic')
    add('dny', interpolation='area', n=1)
    add('rot', interpolation='lanczos', antialias=False)
    add('up15', 'dn2', backend='cv2')
    add('up15', 'dn3', border_value=5)
    add('up15', 'rotdn', n=3, border_value=(1, 2, 3))
    add('dn2', n=5)
    add('up2', n=5, border_value=9)
    add('up2', border_value='replicate')
    # pixel kinds
    add('up15', 'dn2', 'rot', kind='i')
    add('up15', 'dnx', kind='mf')
    add('up2', kind='nf')
    add('dn2', kind='g')
    # nearest
    add('id', 'up2', 'up15', 'dn2', 'dn3', 'dnx', 'mix', 'rot', 'flip', 'rot90', kind='i', **near)
    add('up15', 'dn3', 'rotdn', kind='f', n=1, **near)
    add('up15', 'dn2', 'rotdn', kind='i', n=1, interpolation=0)
    add('dn3', n=1, interpolation=1)
    add('rotdn', n=1, interpolation=2)
    add('up2', 'up15', 'dn2', 'dn3', 'mix', 'upx', off=None, canvas='auto', kind='i', n=1, **near)
    add('up2', 'dn2', 'dn3', off=None, canvas='free', kind='i', **near)
    add('up15', 'dn2', off=None, canvas='same', kind='i', **near)
    add('up2', 'dn3', kind='i', n=3, border_value=(1, 2, 3), **near)
    add('up15', 'dn2', kind='i', n=1, border_value=6, **near)
    add('up15', kind='f', n=5, **near)
    add('up2', 'rot', kind='mi', **near)
    add('dn2', kind='mf', off=None, canvas='auto', **near)
    if tier == 'thorough':
        for lin in LIN:
            for kind in ('f', 'i', 'mf'):
                for off in ('frac', 'int', None):
                    for canvas in ('free', 'auto', 'same'):
                        for algo in ({}, near, {'antialias': False, 'border_value': 2}):
                            add(lin, off=off, canvas=canvas, kind=kind, n=1, **algo)
    return out
