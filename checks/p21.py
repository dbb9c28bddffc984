"""
Reading image files: a file with symbolic size, per-band no-data values and a
number of stored overviews is read through every form of window, band selection
and overview level, directly and through DelayedLoad trees.  The result is the
stored window of exactly that level, with no-data pixels marked as requested.
"""
import numpy as np
from checks import filelib
from checks.imglib import window
from vlib import symimg
from delayed_image import lazy_loaders
from delayed_image.delayed_leafs import DelayedLoad
from delayed_image.lazy_loaders import LazyGDalFrameFile
PROPERTY = 'P21'
EXPECT = ['metadata', 'shape', 'content', 'refused', 'prepare', 'tree', 'again', 'level-missing', 'other', 'surplus']
BOUNDS = ('image sides in [1,48], 1 to 4 bands, 0 to 2 stored overviews read at every level; window bounds: every integer in '
          '[-96,96] or open; no-data value of each band: none or any stored value; no-data handling none, float, nan, auto, '
          'masked; both reader implementations')
OUTSIDE = ('decoding of stored pixels (the GDAL library); color tables; sub-datasets; the type of an array without bands; slices with a step; '
           'no-data values that are not a number; pixel types other than 32 bit integers')
STUBS = symimg.STUBS + ['GDAL datasets and bands (checks/filelib.py): window requests inside the raster return the stored '
                        'window, others raise; replays use a real in-memory GDAL dataset']
OPTS = dict(time_s=30, max_paths=1500, query_ms=6000)
OPTS_THOROUGH = dict(time_s=300, max_paths=20000)
BUDGET = {'quick': 120, 'thorough': 1200}
HI = 48


def opened(ctx, n, nov, nodata, method, overview=None):
    w, h = ctx.int('w', 1, HI), ctx.int('h', 1, HI)
    values = []
    for k in range(n):
        if nodata == 'none' or (nodata == 'some' and k == 0 and n > 1):
            values.append(None)
        else:
            # a value that occurs in some level of this band, or elsewhere
            values.append(ctx.int('nodata%d' % k, 0, 1 << 18))
    ds = filelib.dataset(ctx, h, w, n, nov, values)
    f = LazyGDalFrameFile('/nowhere/file.tif', nodata_method=method, overview=overview)
    f._ds_cache = ds
    return f, w, h, values


def bound(ctx, name, form):
    if form == 'open':
        return None
    return ctx.int(name, -96, 96)


def look(ctx, label, final, level, y0, y1, x0, x1, bands, nodata, method):
    method = 'float' if method in ('auto', 'nan') else method
    shape = tuple(final.shape)
    want = (y1 - y0, x1 - x0, len(bands))
    ok = len(shape) == 3 and ctx.eq(shape, want) or (len(shape) == 2 and len(bands) == 1 and ctx.eq(shape, want[:2]))
    ctx.check('shape', ok, lambda: 'shape %s instead of %s' % (shape, want))
    if not bands:
        return
    ctx.check('shape', isinstance(final, np.ma.MaskedArray) == (method == 'ma'), 'kind of array')
    if method == 'float':
        ctx.check('shape', final.dtype.kind == 'f')
    else:
        ctx.check('shape', final.dtype == np.dtype('int32'))
    oy, ox = ctx.int('oy', 0, HI), ctx.int('ox', 0, HI)
    if not bool(ctx.all([oy < want[0], ox < want[1]])):
        return
    if len(shape) == 2:
        final = final[:, :, None]
    for i, k in enumerate(bands):
        got = symimg.pixel(final, oy, ox, i)
        exp = filelib.expected(ctx, level, oy + y0, ox + x0, k, nodata, method)
        ctx.check(label, symimg.same(ctx, got, exp), lambda: 'pixel (%s,%s,%s) is %s instead of %s' % (oy, ox, i, got, exp))


def reading(fast):
    return symimg.replaced(lazy_loaders, 'GDAL_FAST_PATH', 1 if fast else 0)


def read(ctx, n, nov, levels, form, bands, method, nodata='all', fast=0, bounds='given', absolute=False):
    f, w, h, values = opened(ctx, n, nov, nodata, method)
    level = 0
    for k in levels:
        if absolute:
            f = f.get_absolute_overview(k)
            level = k
        else:
            f = f.get_overview(k)
            level += k
    H, W = symimg.ceil_half(h, level), symimg.ceil_half(w, level)
    ctx.check('metadata', ctx.eq(tuple(f.shape), (H, W, n)), lambda: 'file shape %s' % (f.shape,))
    ctx.check('metadata', f.ndim == 3 and f.num_overviews == nov - level and np.dtype(f.dtype) == np.dtype('int32'))
    ys = slice(bound(ctx, 'y0', bounds), bound(ctx, 'y1', bounds if bounds != 'half' else 'open'))
    xs = slice(bound(ctx, 'x0', bounds if bounds != 'half' else 'open'), bound(ctx, 'x1', bounds))
    sel = list(range(n))
    every = slice(None)
    if form == 'all':
        key, ys, xs = every, every, every
    elif form == 'dots':
        key, ys, xs = Ellipsis, every, every
    elif form == 'dots-bands':
        key, ys, xs = (Ellipsis, bands), every, every
    elif form == 'rows':
        key, xs = ys, every
    elif form == 'rows-dots':
        key, xs = (ys, Ellipsis), every
    elif form == 'window':
        key = (ys, xs)
    elif form == 'dots-middle':
        key, xs = (ys, Ellipsis, bands), every
    elif form == 'window-dots':
        key = (ys, xs, Ellipsis)
    elif form.startswith('full-dots'):
        # a full index leaves nothing for the dots
        at = int(form[9:])
        key = (ys, xs, bands)
        key = key[:at] + (Ellipsis,) + key[at:]
    elif form == 'array':
        key, ys, xs = None, every, every
    else:
        key = (ys, xs, bands)
    if bands is not None:
        b = eval(bands) if isinstance(bands, str) else bands
        key = tuple(b if v is bands else v for v in key)
        sel = sel[b] if isinstance(b, slice) else [sel[i] for i in b] if isinstance(b, list) else [sel[b]]
    with reading(fast):
        final = np.asanyarray(f) if form == 'array' and not ctx.symbolic else f.__array__() if form == 'array' else f[key]
    y0, y1 = window(ctx, ys.start, ys.stop, H)
    x0, x1 = window(ctx, xs.start, xs.stop, W)
    look(ctx, 'content', final, level, y0, y1, x0, x1, sel, values, method)


def no_level(ctx, nov, level, fast):
    """a level that is not stored is refused, not replaced"""
    f, w, h, values = opened(ctx, 2, nov, 'none', None, overview=level)

    def go():
        with reading(fast):
            f[0:1, 0:1]
    refused = ctx.raises(go, (ValueError, RuntimeError, AttributeError, IOError))
    ctx.check('level-missing', refused, 'a level that does not exist was read')


def no_band(ctx, index, fast):
    f, w, h, values = opened(ctx, 2, 0, 'none', None)
    i = ctx.int('band', 2, 9) if index > 0 else ctx.int('band', -9, -3)
    i = int(i) if not ctx.symbolic else i
    with reading(fast):
        refused = ctx.raises(lambda: f[:, :, i if index in (1, -1) else [0, i]], (IndexError, RuntimeError, IOError))
    ctx.check('refused', refused, 'a band that does not exist was read')


def surplus(ctx, kind, key, fast=0):
    """an index with more dimensions than an image has is refused"""
    key = tuple(Ellipsis if k == 'dots' else slice(ctx.int('a%d' % i, 0, HI), None) if k == 'from' else slice(None) for i, k in enumerate(key))
    if kind == 'gdal':
        f = opened(ctx, 2, 0, 'none', None)[0]
    else:
        h, w = ctx.int('h', 1, HI), ctx.int('w', 1, HI)
        f = other_reader(ctx, kind, filelib.content(ctx, h, w, 2, 0))
    with reading(fast):
        refused = ctx.raises(lambda: f[key], (IndexError, TypeError, ValueError))
    ctx.check('surplus', refused, 'surplus indices were ignored')


def load(ctx, n, nov, given, method):
    """DelayedLoad takes what it does not know from the file"""
    f, w, h, values = opened(ctx, n, nov, 'all', None)
    names = 'a|b|c|d'.split('|')[:n]
    kw = {}
    if 'dsize' in given:
        kw['dsize'] = (w, h)
    if 'half' in given:
        kw['dsize'] = (w, None)
    if 'channels' in given:
        kw['channels'] = '|'.join(names)
    if 'overviews' in given:
        kw['num_overviews'] = nov
    node = DelayedLoad('/nowhere/file.tif', nodata_method=method, **kw)
    node.lazy_ref = f
    got = node.prepare()
    ctx.check('prepare', got is node)
    ctx.check('prepare', ctx.eq(tuple(node.dsize), (w, h)), lambda: 'dsize %s' % (node.dsize,))
    ctx.check('prepare', ctx.eq(tuple(node.shape), (h, w, n)), lambda: 'shape %s' % (node.shape,))
    ctx.check('prepare', node.num_channels == n and node.num_overviews == nov)
    ch = node.channels
    ctx.check('prepare', (None if ch is None else ch.as_list()) == (names if 'channels' in given else None))
    final = node.finalize()
    look(ctx, 'tree', final, 0, 0, h, 0, w, list(range(n)), values, method)


def again(ctx, n, first, methods, mode):
    """
    The method asked for at every finalization wins over the one the image was
    made with, whatever was asked for before.
    """
    f, w, h, values = opened(ctx, n, 1, 'all', None)
    node = DelayedLoad('/nowhere/file.tif', nodata_method=first, channels='|'.join('abcd'[:n]))
    node.lazy_ref = f
    node.prepare()
    top, y0, x0 = node, 0, 0
    if mode == 'crop':
        a = [ctx.int(v, 0, HI) for v in ('y0', 'y1', 'x0', 'x1')]
        ctx.assume(ctx.all([a[0] <= a[1], a[1] <= h, a[2] <= a[3], a[3] <= w]))
        top = node[a[0]:a[1], a[2]:a[3]]
        h, w, y0, x0 = a[1], a[3], a[0], a[2]
    for m in methods:
        kw = {} if m == 'given' else dict(nodata_method=m)
        use = first if m == 'given' else m
        final = top.finalize(**kw)
        look(ctx, 'again', final, 0, y0, h, x0, w, list(range(n)), values, use)


def tree(ctx, ops, method, optimize, n=3, nov=2):
    """crops, channel selections and overviews of a prepared file"""
    f, w, h, values = opened(ctx, n, nov, 'all', None)
    node = DelayedLoad('/nowhere/file.tif', nodata_method=method, channels='|'.join('abcd'[:n]))
    node.lazy_ref = f
    node.prepare()
    level, sel = 0, list(range(n))
    y0, y1, x0, x1 = 0, h, 0, w
    for i, op in enumerate(ops):
        if op == 'C':
            a = [ctx.int('%s%d' % (v, i), 0, HI) for v in ('y0', 'y1', 'x0', 'x1')]
            ctx.assume(ctx.all([a[0] <= a[1], a[1] <= y1 - y0, a[2] <= a[3], a[3] <= x1 - x0]))
            node = node[a[0]:a[1], a[2]:a[3]]
            y0, y1, x0, x1 = y0 + a[0], y0 + a[1], x0 + a[2], x0 + a[3]
        elif op[0] == 'K':
            idx = [int(v) for v in op[1:].split(',') if v]
            node = node.take_channels(idx)
            sel = [sel[v] for v in idx]
        else:
            k = int(op[1:])
            node = node.get_overview(k)
            level += k
            y1, x1 = symimg.ceil_half(y1, k), symimg.ceil_half(x1, k)
    ctx.check('tree', ctx.eq(tuple(node.shape), (y1 - y0, x1 - x0, len(sel))), lambda: 'declared %s' % (node.shape,))
    final = node.finalize(optimize=optimize)
    look(ctx, 'tree', final, level, y0, y1, x0, x1, sel, values, method)


def other_reader(ctx, kind, img):
    if kind == 'rasterio':
        cls = lazy_loaders.LazyRasterIOFrameFile
        ds = filelib.RioStub(img) if ctx.symbolic else filelib.rio_dataset(img)
    else:
        cls = lazy_loaders.LazySpectralFrameFile
        ds = filelib.SpyStub(img) if ctx.symbolic else filelib.spy_dataset(img)
    if ctx.symbolic:
        symimg.install()
    return type('Opened', (cls,), {'_ds': ds})('/nowhere/file')


def other(ctx, kind, n, form, bands=None):
    """the readers that go through rasterio and spectral"""
    h, w = ctx.int('h', 1, HI), ctx.int('w', 1, HI)
    f = other_reader(ctx, kind, filelib.content(ctx, h, w, n, 0))
    ctx.check('metadata', ctx.eq(tuple(f.shape), (h, w, n)) and f.ndim == 3)
    ctx.check('metadata', np.dtype(f.dtype) == np.dtype('int32'))
    ys, xs = slice(bound(ctx, 'y0', 'given'), bound(ctx, 'y1', 'given')), slice(None)
    if form == 'rows':
        key = ys
    elif form == 'row-tuple':
        key = (ys,)
    else:
        xs = slice(bound(ctx, 'x0', 'given'), bound(ctx, 'x1', 'given'))
        key = (ys, xs)
    sel = list(range(n))
    if form == 'bands':
        b = eval(bands) if isinstance(bands, str) else bands
        key = (ys, xs, b)
        sel = sel[b] if isinstance(b, slice) else [sel[i] for i in b] if isinstance(b, list) else [sel[b]]
    y0, y1 = window(ctx, ys.start, ys.stop, h)
    x0, x1 = window(ctx, xs.start, xs.stop, w)
    # the libraries refuse empty windows
    ctx.assume(ctx.all([y0 < y1, x0 < x1]))
    final = f[key]
    look(ctx, 'other', final, 0, y0, y1, x0, x1, sel, [None] * n, None)


def other_band(ctx, kind, listed):
    h, w = ctx.int('h', 1, HI), ctx.int('w', 1, HI)
    img = filelib.content(ctx, h, w, 2, 0)
    f = other_reader(ctx, kind, img)
    i = ctx.int('band', -9, 9)
    i = int(i) if not ctx.symbolic else i
    ctx.assume(ctx.any([i < -2, i > 1]))
    refused = ctx.raises(lambda: f[0:1, 0:1, [0, i] if listed else i], (IndexError, ValueError))
    ctx.check('refused', refused, 'a band that does not exist was read')


def tasks(tier):
    out = []
    for kind in ('rasterio', 'spectral'):
        for form in ('rows', 'row-tuple', 'window'):
            out.append(('other', dict(kind=kind, n=2, form=form)))
        for b in ['slice(0, 2)', 'slice(-2, None)', [2, 0], [-1, 1], 1, -1, [], 'slice(1, 1)']:
            out.append(('other', dict(kind=kind, n=3, form='bands', bands=b)))
        for listed in (False, True):
            out.append(('other_band', dict(kind=kind, listed=listed)))
        out.append(('surplus', dict(kind=kind, key=['from', 'all', 'all', 'from'])))
    for fast in (0, 1):
        out.append(('surplus', dict(kind='gdal', key=['from', 'all', 'all', 'from'], fast=fast)))
        out.append(('surplus', dict(kind='gdal', key=['from', 'dots', 'all', 'all', 'from'], fast=fast)))
    R = 'read'

    def add(**kw):
        out.append((R, kw))
    forms = ['all', 'dots', 'rows', 'rows-dots', 'window', 'window-dots', 'array']
    methods = [None, 'float', 'ma', 'nan', 'auto']
    for i, form in enumerate(forms):
        for fast in (0, 1):
            add(n=(3, 1)[i % 2], nov=1, levels=[i % 2], form=form, bands=None, method=methods[(i + fast) % 5], fast=fast)
    bands = ['slice(0, 2)', 'slice(1, None)', 'slice(-2, None)', [2, 0], [-1], [0, -1, 1], 1, -1, 'slice(None)', 'slice(1, 2)', [1, 1]]
    for i, b in enumerate(bands):
        form = ('bands', 'dots-bands', 'dots-middle')[i % 3]
        add(n=3, nov=2, levels=[[1], [], [2], [1, 1]][i % 4], form=form, bands=b, method=methods[i % 5], fast=i % 2, bounds='half')
        add(n=3, nov=2, levels=[[1, 1], [2], [], [1]][i % 4], form='bands', bands=b, method=methods[(i + 2) % 5], fast=(i + 1) % 2, nodata='some')
    for i, b in enumerate([[], 'slice(1, 1)', 'slice(2, 1)']):
        for fast in (0, 1):
            add(n=3, nov=1, levels=[i % 2], form=('bands', 'dots-bands')[fast], bands=b, method=methods[i + fast], fast=fast)
    for at in range(4):
        add(n=3, nov=1, levels=[at % 2], form='full-dots%d' % at, bands=[[2, 0], 'slice(0, 2)', 1, [1]][at], method=methods[at], fast=at % 2)
    for m in methods:
        add(n=2, nov=0, levels=[], form='window', bands=None, method=m, nodata='none')
        add(n=1, nov=2, levels=[2], form='window', bands=None, method=m, fast=1, nodata='some')
    add(n=2, nov=2, levels=[1, 2], form='window', bands=None, method='ma', absolute=True)
    add(n=2, nov=2, levels=[2, 1], form='window', bands=None, method=None, absolute=True, fast=1)
    for fast in (0, 1):
        out.append(('no_level', dict(nov=1, level=2, fast=fast)))
        out.append(('no_level', dict(nov=0, level=1, fast=fast)))
        for index in (1, -1, 2, -2):
            out.append(('no_band', dict(index=index, fast=fast)))
    for given in ([], ['dsize'], ['channels'], ['half', 'overviews'], ['dsize', 'channels', 'overviews'], ['channels', 'overviews']):
        out.append(('load', dict(n=3, nov=1, given=given, method=None)))
        out.append(('load', dict(n=1, nov=2, given=given, method='ma' if 'dsize' in given else 'float')))
    for i, ops in enumerate([['C'], ['C', 'C'], ['O1', 'C'], ['O2'], ['O1', 'O1', 'C'], ['K2,0', 'C'], ['C', 'K1'], ['C', 'K'], ['O1', 'C', 'K0,2'], ['K1', 'O1']]):
        for o in ((True,) if ops[-1][0] == 'O' and len(ops) > 1 else (False, True)):
            out.append(('tree', dict(ops=ops, method=[None, 'float', 'ma'][(i + o) % 3], optimize=o)))
    AG = [('ma', ['given']), (None, ['ma', 'float']), (None, ['float', 'ma']), ('ma', ['float', 'ma']), ('float', ['given', 'ma', 'float'])]
    for i, (first, ms) in enumerate(AG):
        out.append(('again', dict(n=2 - i % 2, first=first, methods=ms, mode='leaf')))
        out.append(('again', dict(n=1 + i % 2, first=first, methods=ms, mode='crop')))
    if tier == 'thorough':
        for form in forms:
            for m in methods:
                for fast in (0, 1):
                    for lv in ([], [1], [2]):
                        add(n=2, nov=2, levels=lv, form=form, bands=None, method=m, fast=fast)
        for b in bands:
            for m in methods:
                for fast in (0, 1):
                    for form in ('bands', 'dots-bands'):
                        add(n=3, nov=2, levels=[1], form=form, bands=b, method=m, fast=fast)
    return out
