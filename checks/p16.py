"""
Quantization of float images: codes, reported quantization and round trip.
Once with exact numbers and once with bit-precise floating point arithmetic.
"""
import numpy as np
from vlib import symimg
from vlib.symimg import Img
from delayed_image.helpers import dequantize, quantize_float01
PROPERTY = 'P16'
EXPECT = ['info', 'codes', 'nodata', 'round-trip', 'order', 'unchanged', 'precise-codes', 'precise-ends']
BOUNDS = ('every pixel value in [-2000,2000] (multiples of 2^-20), infinite or NaN, inside and outside of the range; the range starts at any multiple of '
          '1/8 in [-100,100] and has one of the extents 1/2, 1, 3, 10, 255, 4000; code types of 8, 16 and 32 bits; image sides in [1,40]; '
          'bit-precise: every float16, float32 and float64 pixel value in [-10^4,10^4] for the listed ranges')
OUTSIDE = '64 bit codes (not representable in floating point); round trip errors of round-off size'
STUBS = symimg.STUBS + ['floating point pixels: vlib/symfp.py (IEEE arithmetic of the z3 floating point theory)']
OPTS = dict(time_s=40, max_paths=400, query_ms=20000)
OPTS_THOROUGH = dict(time_s=300, max_paths=4000, query_ms=120000)
BUDGET = {'quick': 130, 'thorough': 1200}
HI = 40


def picture(ctx, h, w, n, cols, dtype):
    """column k < len(cols) shows cols[k], the others the last one"""
    if ctx.symbolic:
        def at(*i):
            for k, v in enumerate(cols[:-1]):
                if bool(i[1] == k):
                    return v
            return cols[-1]
        return Img((h, w, n) if n else (h, w), at, dtype)
    img = np.full((h, w, n) if n else (h, w), cols[-1], dtype=dtype)
    for k, v in enumerate(cols[:-1]):
        img[:, k:k + 1] = v
    return img


def look(img, y, x, n):
    if isinstance(img, Img):
        return img.at(*((y, x, 0) if n else (y, x)))
    return img[(int(y), int(x), 0) if n else (int(y), int(x))].item()


def described(ctx, info, dtype, lo, hi):
    """the documented code layout: one code is reserved for missing pixels"""
    ii = np.iinfo(dtype)
    ctx.check('info', ctx.all([info['orig_min'] == lo, info['orig_max'] == hi]), lambda: 'range %s' % info)
    q0, q1, gone = info['quant_min'], info['quant_max'], info['nodata']
    ctx.check('info', bool(ii.min <= q0 < q1 <= ii.max) and not q0 <= gone <= q1 and ii.min <= gone <= ii.max, lambda: 'codes %s' % info)
    # the whole non-negative range of the type is used
    ctx.check('info', q1 == ii.max and q0 <= 1, lambda: 'codes %s' % info)
    return int(q0), int(q1), int(gone)


def exact(ctx, dtype, ext, n=0, fdtype='float64', default=False, infinite=False):
    if ctx.symbolic:
        symimg.install()
    h, w = ctx.int('h', 1, HI), ctx.int('w', 2, HI)
    lo = 0 if default else ctx.dyadic('lo', -100, 100, 8)
    hi = lo + ext
    vals, nans = [], []
    for k in range(2):
        if infinite and k == 0:
            nans.append(False)
            vals.append(float(ctx.choice('end', ['inf', '-inf'])))
            continue
        nans.append(ctx.flag('nan%d' % k))
        vals.append(symimg.MISSING if nans[-1] else ctx.dyadic('v%d' % k, -2000, 2000, 1 << 20))
    img = picture(ctx, h, w, n, vals, fdtype)
    if default:
        assert ext == 1 and dtype == 'int16'
        codes, info = quantize_float01(img)
    else:
        codes, info = quantize_float01(img, old_min=lo, old_max=hi, quantize_dtype=np.dtype(dtype).type)
    q0, q1, gone = described(ctx, info, dtype, lo, hi)
    none, same = quantize_float01(None, old_min=lo, old_max=hi, quantize_dtype=np.dtype(dtype).type)
    ctx.check('info', none is None and same.keys() == info.keys() and ctx.all([same[k] == info[k] for k in info]))
    ctx.check('info', codes.dtype == np.dtype(dtype) and ctx.eq(tuple(codes.shape), tuple(img.shape)), lambda: 'codes %s %s' % (codes.dtype, codes.shape))
    oy = ctx.int('oy', 0, HI - 1)
    ctx.assume(oy < h)
    got = [look(codes, oy, k, n) for k in range(2)]
    back = dequantize(codes, dict(info, orig_dtype='float64'))
    step = (hi - lo) / float(q1 - q0)
    for k in range(2):
        src = look(img, oy, k, n)
        ctx.check('unchanged', symimg.isnan(src) == nans[k] and (nans[k] or src is vals[k] or src == vals[k] or ctx.close(src, vals[k], 1e-3)), lambda: 'pixel changed to %s' % src)
        b = look(back, oy, k, n)
        if nans[k]:
            ctx.check('nodata', ctx.eq(got[k], gone) and symimg.isnan(b), lambda: 'NaN became code %s and then %s' % (got[k], b))
            continue
        ctx.check('codes', ctx.all([got[k] >= q0, got[k] <= q1]), lambda: '%s became code %s, allowed %s..%s' % (vals[k], got[k], q0, q1))
        ctx.check('nodata', not symimg.isnan(b), lambda: '%s became NaN' % vals[k])
        v = vals[k]
        v = ctx.ite(v < lo, lo, ctx.ite(v > hi, hi, v))
        ctx.check('round-trip', ctx.all([b - v <= step * 1.001 + 1e-4, v - b <= step * 1.001 + 1e-4]),
                  lambda: '%s came back as %s, step %s' % (vals[k], b, step))
    if not any(nans):
        ctx.check('order', ctx.implies(vals[0] <= vals[1], got[0] <= got[1]), lambda: '%s became %s' % (vals, got))


def precise(ctx, dtype, fdtype, lo, hi):
    """every floating point value"""
    if ctx.symbolic:
        symimg.install()
    v = ctx.floating('v', fdtype, -1e4, 1e4)
    img = picture(ctx, 1, 1, 1, [v], fdtype)
    codes, info = quantize_float01(img, old_min=lo, old_max=hi, quantize_dtype=np.dtype(dtype).type)
    q0, q1, gone = described(ctx, info, dtype, lo, hi)
    got = look(codes, 0, 0, 1)
    ctx.check('precise-codes', ctx.all([got >= q0, got <= q1]), lambda: '%s became code %s, allowed %s..%s' % (v, got, q0, q1))
    # the ends of the range get the ends of the codes, up to round-off
    slack = max(1, (q1 - q0) // 1000)
    ctx.check('precise-ends', ctx.implies(v >= hi, got >= q1 - slack), lambda: '%s became code %s' % (v, got))
    ctx.check('precise-ends', ctx.implies(v <= lo, got <= q0 + slack), lambda: '%s became code %s' % (v, got))


def tasks(tier):
    out = []
    for k, dtype in enumerate(('uint8', 'int8', 'int16', 'uint16', 'int32', 'uint32')):
        exts = [0.5, 1, 3, 10, 255, 4000] if tier == 'thorough' else [1, [3, 0.5, 10, 255, 4000, 3][k]]
        for ext in exts:
            out.append(('exact', dict(dtype=dtype, ext=ext, n=k % 2)))
    out.append(('exact', dict(dtype='int16', ext=1, default=True)))
    for dtype, ext in [('int16', 1), ('uint8', 3)] + ([('int32', 10), ('uint16', 255), ('int8', 0.5), ('uint32', 4000)] if tier == 'thorough' else []):
        out.append(('exact', dict(dtype=dtype, ext=ext, infinite=True)))
    for dtype in ('uint8', 'int8', 'int16', 'uint16', 'int32', 'uint32'):
        for f in ('float16', 'float32', 'float64'):
            for lo, hi in [(0, 1), (-1, 1)] + (
                    [(-3, 7), (0, 255), (0.125, 10.5)] if tier == 'thorough' else [(-3, 7)] if f == 'float32' and '16' in dtype else []):
                out.append(('precise', dict(dtype=dtype, fdtype=f, lo=lo, hi=hi)))
    return out
