"""
Dequantization: stored integers are mapped to values by the linear map that the
quantization describes, and exactly the no-data code becomes NaN.
"""
import numpy as np
from vlib import symimg
from vlib.symimg import Img
from delayed_image.delayed_leafs import DelayedIdentity
from delayed_image.helpers import dequantize
PROPERTY = 'P15'
EXPECT = ['shape', 'linear', 'nodata', 'masked', 'input-unchanged', 'extent']
BOUNDS = ('every stored value of the types uint8, int8, uint16, int16, int32 and uint32 (rounded to the target precision), every value in [-10^6,10^6] of float; quant_min and quant_max: '
          'any in the range of the type in both orders, also equal; orig_min and orig_max: every multiple of 1/8 in [-1000,1000]; '
          'no-data value: none or any integer in [-70000,70000], also outside of the type, or a fraction; image sides in [1,40]; every pixel')
OUTSIDE = 'round-off (compared with a relative tolerance of 1e-6); integer target types; no-data NaN'
STUBS = symimg.STUBS
OPTS = dict(time_s=30, max_paths=400, query_ms=8000)
OPTS_THOROUGH = dict(time_s=240, max_paths=4000, query_ms=60000)
BUDGET = {'quick': 120, 'thorough': 1200}
HI = 40


def pair(ctx, h, w, n, a, b, dtype, masked=False):
    """the first column shows a, the others b; the last row is masked"""
    if ctx.symbolic:
        def at(*i):
            return a if bool(i[1] == 0) else b
        img = Img((h, w, n) if n else (h, w), at, dtype)
        if masked:
            img = np.ma.array(img, mask=Img(img.shape, lambda *i: i[0] == h - 1, bool))
        return img
    img = np.full((h, w, n) if n else (h, w), b, dtype=dtype)
    img[:, 0] = a
    if masked:
        mask = np.zeros(img.shape, bool)
        mask[-1] = True
        img = np.ma.array(img, mask=mask)
    return img


def span(dtype):
    dt = np.dtype(dtype)
    if dt.kind in 'iu' and dt.itemsize <= 2:
        info = np.iinfo(dt)
        return int(info.min), int(info.max)
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        return int(info.min), int(info.max)
    return -10 ** 6, 10 ** 6


def at(img, y, x, n):
    if n:
        return symimg.pixel(img, y, x, 0)
    if isinstance(img, Img):
        if img.mask is not None and bool(img.mask.at(y, x)):
            return np.ma.masked
        return img.at(y, x)
    v = img[int(y), int(x)]
    return v if v is np.ma.masked else v.item()


def stored(ctx, dtype, quant, orig, nodata, orig_dtype=None, n=1, masked=False, via='function', optimize=False):
    if ctx.symbolic:
        symimg.install()
    lo, hi = span(dtype)
    h, w = ctx.int('h', 1, HI), ctx.int('w', 1, HI)
    if np.dtype(dtype).kind == 'f':
        a, b = ctx.dyadic('a', lo, hi, 4), ctx.dyadic('b', lo, hi, 4)
    else:
        a, b = ctx.int('a', lo, hi), ctx.int('b', lo, hi)
    img = pair(ctx, h, w, n, a, b, dtype, masked)
    info = {}
    if orig_dtype is not None:
        info['orig_dtype'] = orig_dtype
    # the stored range
    if quant == 'default':
        q0, q1 = 0, ctx.int('q1', lo, hi)
        info['quant_max'] = q1
    elif quant == 'equal':
        q0 = q1 = ctx.int('q0', lo, hi)
        info.update(quant_min=q0, quant_max=q1)
    elif quant == 'free':
        q0, q1 = ctx.int('q0', lo, hi), ctx.int('q1', lo, hi)
        info.update(quant_min=q0, quant_max=q1)
    else:
        # a given number of steps, at any position
        q0 = ctx.int('q0', max(lo, lo - quant), min(hi, hi - quant))
        q1 = q0 + quant
        info.update(quant_min=q0, quant_max=q1)
    if orig == 'default':
        o0, o1 = 0, 1
    elif orig == 'free':
        o0, o1 = ctx.dyadic('o0', -1000, 1000, 8), ctx.dyadic('o1', -1000, 1000, 8)
        info.update(orig_min=o0, orig_max=o1)
    else:
        o0 = ctx.dyadic('o0', -1000, 1000, 8)
        o1 = o0 + orig
        info.update(orig_min=o0, orig_max=o1)
    if nodata == 'sym':
        gone = ctx.int('nodata', -70000, 70000)
    elif nodata == 'wide':
        gone = ctx.int('nodata', lo, hi)
    elif nodata == 'half':
        gone = ctx.int('nodata', -70000, 70000) + 0.5
    else:
        gone = nodata
    if nodata != 'absent':
        info['nodata'] = gone
    given = dict(info)
    ctx.assume(q1 - q0 >= -hi + lo)
    if via == 'node':
        node = DelayedIdentity(img).dequantize(info)
        ctx.check('shape', ctx.eq(tuple(node.dsize), (w, h)) and ctx.eq(node.num_channels, n))
        out = node.finalize(optimize=optimize)
    else:
        out = dequantize(img, info)
    ctx.check('shape', ctx.eq(tuple(out.shape), tuple(img.shape)), lambda: 'shape %s' % (out.shape,))
    # numpy computes masked arrays with at least double precision
    ctx.check('shape', out.dtype == np.dtype(orig_dtype or 'float32') or masked and out.dtype.kind == 'f', lambda: 'type %s' % out.dtype)
    ctx.check('masked', isinstance(out, np.ma.MaskedArray) == masked, 'kind of array')
    ctx.check('input-unchanged', info.keys() == given.keys() and ctx.all([v is given[k] or ctx.eq(v, given[k]) for k, v in info.items()]))
    oy, ox = ctx.int('oy', 0, HI - 1), ctx.int('ox', 0, HI - 1)
    ctx.assume(ctx.all([oy < h, ox < w]))
    q = a if bool(ox == 0) else b
    got, source = at(out, oy, ox, n), at(img, oy, ox, n)
    if masked and bool(oy == h - 1):
        ctx.check('masked', got is np.ma.masked and source is np.ma.masked, lambda: 'masked pixel became %s' % got)
        return
    ctx.check('input-unchanged', not symimg.isnan(source) and source is not np.ma.masked and ctx.eq(source, q), lambda: 'source changed to %s' % source)
    if nodata not in ('absent', None) and bool(q == gone):
        ctx.check('nodata', symimg.isnan(got), lambda: 'no-data code %s became %s' % (q, got))
        return
    ctx.check('nodata', got is not np.ma.masked and not symimg.isnan(got), lambda: 'value %s was marked as no-data' % q)
    if bool(q1 == q0):
        ctx.check('extent', ctx.close(got, o0, 1e-3), lambda: '%s became %s instead of %s' % (q, got, o0))
        return
    # (value - orig_min) : (orig_max - orig_min) = (q - quant_min) : (quant_max - quant_min)
    off = (got - o0) * (q1 - q0) - (q - q0) * (o1 - o0)
    ext = (o1 - o0)
    size = 1e-6 * (_abs(ctx, q) + _abs(ctx, q0)) * _abs(ctx, ext) + 1e-6 * (_abs(ctx, o0) + 1e-3) * _abs(ctx, q1 - q0)
    ctx.check('linear', ctx.all([off <= 2 * size, -off <= 2 * size]),
              lambda: '%s became %s, range %s..%s of codes %s..%s' % (q, got, o0, o1, q0, q1))


def _abs(ctx, v):
    return ctx.ite(v < 0, -v, v)


def tasks(tier):
    out = []

    def add(**kw):
        out.append(('stored', kw))
    add(dtype='int32', quant=1 << 25, orig=1, nodata='wide')
    add(dtype='uint32', quant=1 << 25, orig='free', nodata='wide', via='node')
    for dtype in ('uint8', 'int16', 'uint16', 'int32', 'float32'):
        add(dtype=dtype, quant=255 if dtype == 'uint8' else 10000, orig='free', nodata='sym')
        add(dtype=dtype, quant='default', orig=2.5, nodata='sym')
    add(dtype='uint8', quant=254, orig=1, nodata=0)
    add(dtype='uint8', quant=-200, orig='free', nodata='sym', via='node')
    add(dtype='int8', quant=100, orig='default', nodata='sym', via='node', optimize=True)
    add(dtype='uint8', quant='free', orig=8, nodata='sym')
    add(dtype='int16', quant='free', orig=-3, nodata=None, orig_dtype='float64')
    add(dtype='int16', quant='equal', orig='free', nodata='sym', orig_dtype='float64')
    add(dtype='uint8', quant='equal', orig=1, nodata='absent', via='node')
    add(dtype='uint8', quant=7, orig='free', nodata='half')
    add(dtype='float64', quant=1000, orig='free', nodata='half', orig_dtype='float64')
    add(dtype='uint16', quant=65535, orig='free', nodata=-9999, n=0)
    add(dtype='uint8', quant=100, orig='free', nodata='sym', n=0, masked=True)
    add(dtype='int16', quant=1000, orig='free', nodata='sym', n=2, masked=True, via='node')
    add(dtype='int16', quant=32767, orig=1, nodata=-9999, n=3, via='node', optimize=True)
    return out
