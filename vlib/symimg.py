"""
Images of symbolic size.

`Img` stands for an ndarray of shape (h, w, c) whose extent is symbolic.  Its
content is a function from (row, column, channel) to a number, so slicing,
channel selection, concatenation and elementwise arithmetic compose functions
and a pixel is only computed when a harness asks for one.  In a replay (and
when nothing is symbolic) the same harness uses real ndarrays.
"""
import contextlib
import functools
import math
import operator
import sys

import numpy as np
from vlib import sym, patches
try:
    import z3
except ImportError:      # replays do not need it
    z3 = None

MISSING = float('nan')


class Opaque(Exception):
    """the pixel went through an interpolation that is not modelled"""


def _slice(sl, D):
    """(start, stop) of a slice with step 1 in numpy's convention"""
    smax, smin = patches.smax, patches.smin

    def norm(v, default):
        if v is None:
            return default
        if bool(v < 0):
            return smax(v + D, 0)
        return smin(v, D)
    if sl.step is not None and not (sl.step == 1):
        raise sym.Unsupported('slice step')
    a = norm(sl.start, 0)
    b = norm(sl.stop, D)
    return a, smax(b, a)


class Any:
    """marker of np.ndarray.any() on an image: decided by the explorer, and when
    it is false no element is true (see `pixel`)"""


def _is_full(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and k.step is None


class Sel:
    """the elements of an image that a boolean image selects"""

    def __init__(self, fn, mask, dtype):
        self.fn, self.mask, self.dtype = fn, mask, dtype


def _floor(v):
    if isinstance(v, float) and not math.isfinite(v):
        return v
    return math.floor(v)


_UFUNC = {
    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'divide': operator.truediv,
    'true_divide': operator.truediv, 'floor_divide': operator.floordiv, 'negative': operator.neg,
    'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt, 'less_equal': operator.le,
    'greater': operator.gt, 'greater_equal': operator.ge,
    'bitwise_and': lambda a, b: a & b, 'logical_and': lambda a, b: a & b,
    'bitwise_or': lambda a, b: a | b, 'logical_or': lambda a, b: a | b,
    'invert': lambda a: _not(a), 'logical_not': lambda a: _not(a),
    'floor': _floor, 'ceil': lambda v: math.ceil(v), 'rint': lambda v: round(v),
    'isnan': lambda v: isnan(v), 'isfinite': lambda v: not (isinstance(v, float) and not math.isfinite(v)),
    'maximum': lambda a, b: patches.smax(a, b), 'minimum': lambda a, b: patches.smin(a, b),
    'absolute': abs, 'fabs': abs, 'positive': lambda v: v, 'trunc': lambda v: math.trunc(v),
    'isinf': lambda v: isinstance(v, float) and math.isinf(v),
    'bitwise_xor': lambda a, b: a ^ b, 'logical_xor': lambda a, b: a ^ b,
    'remainder': operator.mod, 'fmax': lambda a, b: b if isnan(a) else a if isnan(b) else patches.smax(a, b),
    'fmin': lambda a, b: b if isnan(a) else a if isnan(b) else patches.smin(a, b),
}
_BOOL = {'isinf', 'logical_xor', 'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or',
         'logical_not', 'isnan', 'isfinite'}


def _not(v):
    return ~v if isinstance(v, sym.SymBool) else not v


def _scalar_like(v):
    if isinstance(v, sym.SymBool):
        return True
    if isinstance(v, sym.SymReal):
        return 1.0
    if isinstance(v, sym.SymInt):
        return 1
    return v


def _is_one(n):
    return not sym.is_sym(n) and n == 1


def _broadcast(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(-nd, 0):
        dim = 1
        for s in shapes:
            if len(s) < -k or _is_one(s[k]):
                continue
            if _is_one(dim):
                dim = s[k]
            elif dim is not s[k] and not bool(dim == s[k]):
                raise ValueError('operands could not be broadcast together with shapes %s' % (shapes,))
        out.append(dim)
    return tuple(out)


def _caster(fn, shape, nd):
    """read an operand of the given shape with the indices of a broadcast result"""
    skip = nd - len(shape)
    ones = [_is_one(s) for s in shape]
    if skip == 0 and not any(ones):
        return fn
    return lambda *i: fn(*[0 if o else v for o, v in zip(ones, i[skip:])])


class Img:
    """a lazy n-dimensional array; basic indexing gives views of the same store"""
    __array_priority__ = 2000

    def __init__(self, shape, at, dtype='float64', store=None, axes=None, mask=None, fill_value=None):
        self.shape = tuple(shape)
        self.ndim = len(self.shape)
        self.dtype = np.dtype(dtype)
        self._store = [at] if store is None else store
        self._axes = axes       # per axis of the store: (axis of this view or None, offset, 1 or -1)
        self.mask = mask
        self.fill_value = fill_value

    @property
    def __class__(self):
        return np.ma.MaskedArray if self.__dict__.get('mask') is not None else Img

    size = property(lambda self: functools.reduce(lambda a, b: a * b, self.shape, 1))

    @property
    def at(self):
        """the content as it is now"""
        f = self._store[0]
        axes = self._axes
        if axes is None:
            return f
        return lambda *i: f(*[o if a is None else i[a] + o if s > 0 else o - i[a] for a, o, s in axes])

    def __len__(self):
        n = self.shape[0]
        if sym.is_sym(n):
            raise sym.Unsupported('len of an image of symbolic size')
        return n

    def _new(self, shape, at, dtype=None, mask=None):
        return Img(shape, at, dtype or self.dtype, mask=mask, fill_value=self.fill_value)

    def _view(self, shape, axes, mask=None):
        return Img(shape, None, self.dtype, store=self._store, axes=axes, mask=mask, fill_value=self.fill_value)

    def _full_key(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        used = sum(1 for i in idx if i is not None and i is not Ellipsis)
        for i in idx:
            if isinstance(i, Img) and i.dtype.kind == 'b':
                used += i.ndim - 1
        if used > self.ndim:
            raise IndexError('too many indices for array')
        fill = (slice(None),) * (self.ndim - used)
        for k, i in enumerate(idx):
            if i is Ellipsis:
                return idx[:k] + fill + idx[k + 1:]
        return idx + fill

    def __getitem__(self, idx):
        idx = self._full_key(idx)
        mask = None if self.mask is None else self.mask[idx]
        imgs = [i for i in idx if isinstance(i, Img)]
        if imgs:
            n = len(imgs)
            if not all(isinstance(i, Img) for i in idx[:n]) or not all(_is_full(i) for i in idx[n:]):
                raise sym.Unsupported('index %r' % (idx,))
            if imgs[0].dtype.kind == 'b':
                if n > 1:
                    raise sym.Unsupported('index %r' % (idx,))
                return Sel(self.at, imgs[0], self.dtype)
            shape = _broadcast([i.shape for i in imgs])
            nd = len(shape)
            fns = [_caster(i.at, i.shape, nd) for i in imgs]
            lim = self.shape[:n]
            at = self.at

            def pick(v, D):
                return v + D if bool(v < 0) else v

            def gather(*i):
                pos = [f(*i[:nd]) for f in fns]
                for p, D in zip(pos, lim):
                    if bool((p < -D) | (p >= D)):
                        raise IndexError('index %s is out of bounds for axis with size %s' % (p, D))
                return at(*[pick(p, D) for p, D in zip(pos, lim)], *i[nd:])
            return self._new(shape + self.shape[n:], gather, mask=mask)
        base = self._axes if self._axes is not None else [(k, 0, 1) for k in range(self.ndim)]
        shape, newaxes, fancy = [], {}, None
        k = 0
        for i in idx:
            if i is None:
                shape.append(1)
                continue
            D = self.shape[k]
            if isinstance(i, slice):
                if isinstance(i.step, int) and i.step == -1:
                    # the positions start, start - 1, ... down to stop (exclusive)
                    def norm(v, none):
                        if v is None:
                            return none
                        return patches.smax(v + D, -1) if bool(v < 0) else patches.smin(v, D - 1)
                    a, b = norm(i.start, D - 1), norm(i.stop, -1)
                    newaxes[k] = (len(shape), a, -1)
                    shape.append(patches.smax(a - b, 0))
                else:
                    a, b = _slice(i, D)
                    newaxes[k] = (len(shape), a, 1)
                    shape.append(b - a)
            elif isinstance(i, (list, np.ndarray, range)) or (isinstance(i, tuple)):
                if fancy is not None:
                    raise sym.Unsupported('index %r' % (idx,))
                table = [int(v) for v in np.asarray(i).ravel()] if not isinstance(i, (list, range)) else \
                    [v if sym.is_sym(v) else int(v) for v in i]
                if isinstance(i, np.ndarray) and i.dtype.kind == 'b':
                    table = [int(v) for v in np.flatnonzero(i)]
                if sym.is_sym(D):
                    raise sym.Unsupported('fancy index on an axis of symbolic size')
                for v in table:
                    if bool((v < -D) | (v >= D)):
                        raise IndexError('index %s is out of bounds for axis %d with size %d' % (v, k, D))
                fancy = (len(shape), k, [v % D for v in table])
                newaxes[k] = (len(shape), 0, 1)
                shape.append(len(table))
            else:
                if not sym.is_sym(i):
                    i = operator.index(i)
                if bool((i < -D) | (i >= D)):
                    raise IndexError('index %s is out of bounds for axis %d with size %s' % (i, k, D))
                newaxes[k] = (None, i + D if bool(i < 0) else i, 1)
            k += 1
        axes = []
        for a, o, s in base:
            if a is None:
                axes.append((None, o, 1))
            else:
                na, off, t = newaxes[a]
                axes.append((na, o + off if s > 0 else o - off, s * t))
        out = self._view(shape, axes, mask)
        if fancy is None:
            return out
        pos, _, table = fancy
        at = out.at

        def entry(j):
            # the solver decides the case if the position in the list is a variable
            return table[int(j)]
        return self._new(shape, lambda *i: at(*i[:pos], entry(i[pos]), *i[pos + 1:]), mask=mask)

    def __setitem__(self, key, value):
        key = self._full_key(key)
        if self.mask is not None and not isinstance(key[0], Img):
            raise sym.Unsupported('assignment to a masked image')
        if isinstance(key[0], Img):
            m = key[0]
            if self.mask is not None:
                # numpy.ma: an index with a mask sets the data only, others clear the mask
                if isinstance(value, (Img, Sel)):
                    raise sym.Unsupported('assignment to a masked image')
                if m.mask is None:
                    keep = self.mask.copy()
                    keep[m] = False
                    self.mask = keep
                    if self.fill_value is None:
                        raise sym.Unsupported('assignment to a masked image')
            if m.dtype.kind != 'b' or not all(_is_full(i) for i in key[1:]) or self._axes is not None:
                raise sym.Unsupported('assignment to %r' % (key,))
            at, mt, nd = self._store[0], m.at, m.ndim
            for a, b in zip(self.shape, m.shape):
                if a is not b and not bool(a == b):
                    raise IndexError('boolean index did not match indexed array')
            if isinstance(value, Sel):
                if value.mask is not m:
                    raise sym.Unsupported('assignment of a selection with another mask')
                vt = value.fn
            elif np.ndim(value) == 0 and not isinstance(value, Img):
                def vt(*i):
                    return value
            else:
                raise sym.Unsupported('assignment of an array to a selection')
            self._store[0] = lambda *i: vt(*i) if bool(mt(*i[:nd])) else at(*i)
            return
        view = self[key]
        if view._store is not self._store:
            raise sym.Unsupported('assignment to %r' % (key,))
        view._assign(value)

    def _assign(self, value):
        old = self._store[0]
        axes = self._axes if self._axes is not None else [(k, 0, 1) for k in range(self.ndim)]
        shape = self.shape
        if isinstance(value, Img):
            vs = value.shape
            if _broadcast([vs, shape]) is None or len(vs) > len(shape):
                raise sym.Unsupported('assignment')
            for a, b in zip(vs[::-1], shape[::-1]):
                if not _is_one(a) and a is not b and not bool(a == b):
                    raise ValueError('could not broadcast input array from shape %s into shape %s' % (vs, shape))
            vt = _caster(value.at, vs, len(shape))
            if self.dtype.kind in 'iu' and value.dtype.kind == 'f':
                vt = (lambda g: lambda *i: cast(g(*i), self.dtype, value.dtype))(vt)
        elif np.ndim(value):
            arr = np.asarray(value)
            vt = _caster(lambda *i: arr[i], arr.shape, len(shape))
        else:
            if self.dtype.kind in 'iu' and isnan(value):
                raise ValueError('cannot convert float NaN to integer')

            def vt(*i):
                return value

        def new(*base):
            idx = [None] * len(shape)
            for b, (a, o, s) in zip(base, axes):
                if a is None:
                    if not bool(b == o):
                        return old(*base)
                else:
                    v = b - o if s > 0 else o - b
                    if not bool((v >= 0) & (v < shape[a])):
                        return old(*base)
                    idx[a] = v
            return vt(*[0 if i is None else i for i in idx])
        self._store[0] = new

    def _ew(self, name, *args, out=None, dtype=None):
        f = _UFUNC[name]
        shapes, fns, dts = [], [], []
        masks = [a.mask for a in args if isinstance(a, Img) and a.mask is not None]
        for a in args:
            if isinstance(a, Img):
                shapes.append(a.shape)
                dts.append(a.dtype)
            elif isinstance(a, Ref):
                a = a.content()
                shapes.append(a.shape)
                dts.append(a.dtype)
            elif isinstance(a, np.ndarray) and a.ndim:
                shapes.append(a.shape)
                dts.append(a.dtype if a.dtype != object else np.dtype(float))
            else:
                shapes.append(())
                dts.append(_scalar_like(a.item() if isinstance(a, np.ndarray) else a))
        shape = _broadcast(shapes)
        nd = len(shape)
        for a, s in zip(args, shapes):
            if isinstance(a, Ref):
                a = a.content()
            if isinstance(a, Img):
                fns.append(_caster(a.at, s, nd))
            elif s:
                fns.append(_caster((lambda arr: lambda *i: arr[i])(a), s, nd))
            else:
                fns.append((lambda v: lambda *i: v)(a))
        if dtype is None:
            if name in _BOOL:
                dtype = bool
            elif name in ('divide', 'true_divide', 'floor', 'ceil', 'rint'):
                dtype = np.result_type(*dts)
                if dtype.kind in 'iub':
                    dtype = np.dtype(float)
            else:
                dtype = np.result_type(*dts)
        mask = None
        if masks:
            mask = masks[0]
            for m in masks[1:]:
                mask = mask | m
        if masks and name in ('equal', 'not_equal'):
            # numpy.ma compares the masks where something is masked
            hidden = [a.mask if isinstance(a, Img) else None for a in args]
            plain, eq = f, name == 'equal'

            def compare(*i):
                h = [hm is not None and bool(hm.at(*i)) for hm in hidden]
                if any(h):
                    return (h[0] == h[1]) == eq
                return plain(*[g(*i) for g in fns])
            return Img(shape, compare, bool, mask=mask, fill_value=True)
        # a value that is not needed is not computed: an unchanged operand may be Opaque
        dt = np.dtype(dtype)
        if dt.kind in 'iu' and dt.itemsize <= 2 and name in ('add', 'subtract', 'multiply', 'negative'):
            small = f

            def f(*v):
                return wrapped(small(*v), dt)
        res = Img(shape, lambda *i: f(*[g(*i) for g in fns]), dtype, mask=mask, fill_value=self.fill_value)
        if out is not None:
            out[...] = res
            return out
        return res

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, dtype=None, **kw):
        if method != '__call__' or ufunc.__name__ not in _UFUNC or kw:
            raise sym.Unsupported('numpy.%s of an image' % ufunc.__name__)
        if isinstance(out, tuple):
            out = out[0]
        return self._ew(ufunc.__name__, *inputs, out=out, dtype=dtype)

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        at = self.at
        if dt == self.dtype:
            return self._new(self.shape, at, dt, mask=self.mask)
        return self._new(self.shape, lambda *i: cast(at(*i), dt, self.dtype), dt, mask=self.mask)

    def view(self, *a):
        raise sym.Unsupported('view of an image')

    def round(self, decimals=0, out=None):
        assert decimals == 0 and out is None
        return self._ew('rint', self)

    def clip(self, lo=None, hi=None, min=None, max=None, out=None):
        lo, hi = (min if lo is None else lo), (max if hi is None else hi)
        at = self.at

        def f(*i):
            v = at(*i)
            if lo is not None:
                v = patches.smax(v, lo)
            return v if hi is None else patches.smin(v, hi)
        res = self._new(self.shape, f, mask=self.mask)
        if out is not None:
            out[...] = res
            return out
        return res

    def transpose(self, *perm):
        if len(perm) == 1 and not isinstance(perm[0], int):
            perm = tuple(perm[0])
        perm = perm or tuple(range(self.ndim))[::-1]
        base = self._axes if self._axes is not None else [(k, 0, 1) for k in range(self.ndim)]
        axes = [(None if a is None else perm.index(a), o, s) for a, o, s in base]
        return self._view([self.shape[p] for p in perm], axes, None if self.mask is None else self.mask.transpose(*perm))

    T = property(lambda self: self.transpose())

    def any(self, axis=None):
        assert axis is None
        z = bool(sym.wrapb(z3.FreshConst(z3.BoolSort())))
        if not z:
            sym.cur().never.append(self)
        return z

    def filled(self, v):
        if self.mask is None:
            return self
        at, mt = self.at, self.mask.at
        return Img(self.shape, lambda *i: v if bool(mt(*i)) else at(*i), self.dtype)

    @property
    def data(self):
        return Img(self.shape, None, self.dtype, store=self._store, axes=self._axes)

    # what numpy.ma.getdata / getmask look for
    _data = data

    @property
    def _mask(self):
        return np.ma.nomask if self.mask is None else self.mask

    def copy(self, order=None):
        return self._new(self.shape, self.at, mask=self.mask)

    def fill(self, value):
        self[...] = value

    def swapaxes(self, a, b):
        perm = list(range(self.ndim))
        perm[a], perm[b] = perm[b], perm[a]
        return self.transpose(*perm)

    def squeeze(self, axis=None):
        if axis is None:
            drop = [k for k, n in enumerate(self.shape) if bool(n == 1)]
        else:
            drop = [a % self.ndim for a in (axis if isinstance(axis, tuple) else (axis,))]
            if not all(bool(self.shape[k] == 1) for k in drop):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        return self[tuple(0 if k in drop else slice(None) for k in range(self.ndim))]

    def take(self, indices, axis=None, **kw):
        if axis is None or kw:
            raise sym.Unsupported('take')
        return self[(slice(None),) * (axis % self.ndim) + (indices,)]

    def all(self, axis=None):
        return not (~self).any(axis)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        if name in _FUNCTIONS:
            return _FUNCTIONS[name](*args, **kwargs)
        raise sym.Unsupported('numpy.%s of an image' % name)

    def __array__(self, *a, **k):
        raise sym.Unsupported('conversion of an image of symbolic size to an array')

    def __repr__(self):
        return '<Img>'

    __hash__ = None

    def __and__(self, o):
        return self._ew('bitwise_and', self, o)
    __rand__ = __and__

    def __or__(self, o):
        return self._ew('bitwise_or', self, o)
    __ror__ = __or__

    def __invert__(self):
        return self._ew('invert', self)

    def __neg__(self):
        return self._ew('negative', self)

    def __abs__(self):
        return self._ew('absolute', self)


def _putmask(a, mask, values):
    if np.ndim(values) and not isinstance(values, Img):
        raise sym.Unsupported('putmask')
    a[...] = np.where(mask, values, a.copy())


def _expand_dims(a, axis):
    axes = [v % (a.ndim + 1) for v in (axis if isinstance(axis, (tuple, list)) else [axis])]
    if len(axes) != 1:
        raise sym.Unsupported('expand_dims')
    return a[(slice(None),) * axes[0] + (None,)]


def _atleast_3d(a):
    return a if a.ndim >= 3 else a[:, :, None] if a.ndim == 2 else a[None, :, None]


def _flip(a, axis=None):
    axes = range(a.ndim) if axis is None else [v % a.ndim for v in (axis if isinstance(axis, tuple) else (axis,))]
    return a[tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(a.ndim))]


def _moveaxis(a, source, destination):
    src = [v % a.ndim for v in (source if isinstance(source, (tuple, list)) else [source])]
    dst = [v % a.ndim for v in (destination if isinstance(destination, (tuple, list)) else [destination])]
    order = [k for k in range(a.ndim) if k not in src]
    for d, v in sorted(zip(dst, src)):
        order.insert(d, v)
    return a.transpose(*order)


def _rollaxis(a, axis, start=0):
    axis, start = axis % a.ndim, start + (a.ndim if start < 0 else 0)
    return _moveaxis(a, axis, start - 1 if axis < start else start)


def _split(a, sections, axis=0):
    if not isinstance(sections, int) or not isinstance(a.shape[axis], int) or a.shape[axis] % sections:
        raise sym.Unsupported('split')
    k, n = axis % a.ndim, a.shape[axis] // sections
    return [a[(slice(None),) * k + (slice(j * n, (j + 1) * n),)] for j in range(sections)]


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    near = abs(a - b) <= atol + rtol * abs(b)
    if equal_nan:
        near = near | (np.isnan(a) & np.isnan(b))
    return near


_FUNCTIONS = {
    'transpose': lambda a, axes=None: a.transpose(*(axes or ())), 'moveaxis': _moveaxis, 'rollaxis': _rollaxis,
    'split': _split, 'isclose': _isclose,
    'putmask': _putmask, 'place': _putmask, 'expand_dims': _expand_dims, 'atleast_3d': _atleast_3d, 'flip': _flip,
    'clip': lambda a, *args, **kw: a.clip(*args, **kw), 'squeeze': lambda a, axis=None: a.squeeze(axis),
    'shape': lambda a: a.shape, 'ndim': lambda a: a.ndim, 'size': lambda a: a.size, 'copy': lambda a, *args, **kw: a.copy(),
    'swapaxes': lambda a, i, j: a.swapaxes(i, j), 'take': lambda a, i, axis=None: a.take(i, axis),
    'any': lambda a, axis=None: a.any(axis), 'all': lambda a, axis=None: a.all(axis),
    'round': lambda a, decimals=0: a.round(decimals), 'around': lambda a, decimals=0: a.round(decimals),
    'iscomplexobj': lambda a: False, 'flipud': lambda a: _flip(a, 0), 'fliplr': lambda a: _flip(a, 1),
}


def _ops():
    for op, name in dict(add='add', sub='subtract', mul='multiply', truediv='divide', floordiv='floor_divide',
                         mod='remainder').items():
        setattr(Img, '__%s__' % op, (lambda n: lambda self, o: self._ew(n, self, o))(name))
        setattr(Img, '__r%s__' % op, (lambda n: lambda self, o: self._ew(n, o, self))(name))

        def inplace(self, o, n=name):
            res = self._ew(n, self, o)
            if not np.can_cast(res.dtype, self.dtype, 'same_kind'):
                raise TypeError('Cannot cast ufunc %r output' % n)
            self._assign(res)
            return self
        setattr(Img, '__i%s__' % op, inplace)
    for op, name in dict(eq='equal', ne='not_equal', lt='less', le='less_equal', gt='greater', ge='greater_equal').items():
        setattr(Img, '__%s__' % op, (lambda n: lambda self, o: self._ew(n, self, o))(name))


_ops()


def cast(v, dt, old):
    """one number to another type"""
    if type(v).__name__ == 'SymFP':
        return v.astype(dt)
    if dt.kind in 'iu':
        if old.kind == 'f':
            v = _to_int(v)
        return wrapped(v, dt)
    if dt.kind == 'b' and old.kind != 'b':
        return v != 0
    if dt.kind == 'f' and old.kind in 'iu' and sym.is_sym(v):
        # float16 and float32 cannot represent all wide integers
        digits = np.finfo(dt).nmant + 1
        if 8 * old.itemsize - (old.kind == 'i') > digits and digits < 53:
            return rounded(v, digits, 8 * old.itemsize)
    return v


def rounded(v, digits, bits):
    """an integer to the nearest number of the given precision, ties to even"""
    lim = 1 << digits
    step = 1
    while not bool((v <= lim * step) & (v >= -lim * step)):
        step *= 2
        if step.bit_length() + digits > bits + 1:
            break
    if step == 1:
        return v
    q = v // step
    rem = v - q * step
    if bool(rem * 2 > step) or (bool(rem * 2 == step) and bool(q % 2 == 1)):
        q = q + 1
    return q * step


def wrapped(v, dt):
    """small integer types wrap around"""
    if dt.itemsize > 2 or isinstance(v, (bool, np.bool_, sym.SymBool)):
        return v
    info = np.iinfo(dt)
    lo, hi = int(info.min), int(info.max)
    if sym.is_sym(v):
        if not bool((v >= lo) & (v <= hi)):
            v = (v - lo) % (hi - lo + 1) + lo
    elif isinstance(v, (int, np.integer)) and not lo <= v <= hi:
        v = (int(v) - lo) % (hi - lo + 1) + lo
    return v


def _to_int(v):
    if isinstance(v, float) and not math.isfinite(v):
        raise sym.Unsupported('conversion of nan to an integer')
    return patches.IntShim(v)


class Ref:
    """what a lazily opened image file looks like to the tree: stored overviews
    and slicing.  `levels[k]` is the content of overview k."""
    nodata_method = None

    def __init__(self, levels, level=0):
        self.levels = levels
        self.level = level

    @property
    def shape(self):
        return self.levels[self.level].shape

    @property
    def dtype(self):
        return self.levels[0].dtype

    @property
    def ndim(self):
        return 3

    @property
    def num_overviews(self):
        return len(self.levels) - 1 - self.level

    def get_overview(self, k):
        assert 0 <= self.level + k < len(self.levels)
        return Ref(self.levels, self.level + k)

    def content(self):
        return self[:]

    def __getitem__(self, idx):
        # as in files, a single band comes without a channel axis
        out = self.levels[self.level][idx]
        if out.ndim == 3 and isinstance(out.shape[2], int) and out.shape[2] == 1:
            out = out[:, :, 0]
        return out

    def __array__(self, dtype=None, copy=None):
        return np.asanyarray(self.content())


# ---------------------------------------------------------------------------
# content

CH, ROW, LEVEL = 4096, 64, 1 << 16
UNINITIALIZED = 123454321       # content of np.empty


def code(leaf, level, y, x, c):
    """the value of a leaf pixel: different pixels have different values"""
    return leaf * (1 << 20) + level * LEVEL + c * CH + y * ROW + x


def image(ctx, h, w, c, leaf=1, level=0, dtype='int32'):
    if ctx.symbolic:
        return Img((h, w, c), lambda y, x, k: code(leaf, level, y, x, k), dtype)
    y, x, k = np.mgrid[0:int(h), 0:int(w), 0:int(c)]
    return code(leaf, level, y, x, k).astype(dtype)


def ceil_half(n, k):
    d = 1 << k
    return (n + d - 1) // d


def pyramid(ctx, h, w, c, n, leaf=1, dtype='int32'):
    return Ref([image(ctx, ceil_half(h, k), ceil_half(w, k), c, leaf, k, dtype) for k in range(n + 1)])


def pixel(final, y, x, c):
    if isinstance(final, Ref):
        final = final.content()
    if isinstance(final, Img):
        for g in sym.cur().never if sym.CUR is not None else ():
            if bool(g.at(*(y, x, c)[:g.ndim])):
                raise sym.PathEnd('assumption')
        if final.mask is not None and bool(final.mask.at(y, x, c)):
            return np.ma.masked
        return final.at(y, x, c)
    v = final[int(y), int(x), int(c)]
    if v is np.ma.masked:
        return v
    return v.item() if hasattr(v, 'item') else v


def isnan(v):
    return isinstance(v, float) and v != v


def same(ctx, a, b, tol=1e-6):
    if a is np.ma.masked or b is np.ma.masked:
        return a is b
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return ctx.close(a, b, tol)


# ---------------------------------------------------------------------------
# primitives that end in C code


def _is_img(x):
    return isinstance(x, (Img, Ref)) and not (isinstance(x, Ref) and isinstance(x.levels[0], np.ndarray))


def _plain(x):
    return x.content() if isinstance(x, Ref) else x


def _translation(M):
    """(tx, ty) when the matrix provably is a translation by whole pixels"""
    a, b, c, d, e, f = [v for v in np.asarray(M).ravel()[0:6]]

    def is1(v, k):
        return (v == k) if not sym.is_sym(v) else sym.cur().decide(sym.as_bool_term(v == k)) is True
    if not (is1(a, 1) and is1(b, 0) and is1(d, 0) and is1(e, 1)):
        return None
    for v in (c, f):
        if sym.is_sym(v):
            w = v.is_integer()
            if not (w is True or (w is not False and sym.cur().decide(sym.as_bool_term(w)) is True)):
                return None
        elif v != int(v):
            return None
    return c, f


def warp_model(orig):
    def warp_affine(image, transform, dsize=None, border_value=0, **kw):
        if not _is_img(image):
            return orig(image, transform, dsize=dsize, border_value=border_value, **kw)
        image = _plain(image)
        h, w, c = image.shape
        M = getattr(transform, 'matrix', transform)
        W, H = dsize
        t = _translation(M) if M is not None else (0, 0)
        if t is None:
            def at(y, x, k):
                raise Opaque()
        else:
            src = image.at
            bv = border_value[0] if isinstance(border_value, tuple) else border_value

            def at(y, x, k):
                sx, sy = x - t[0], y - t[1]
                inside = (sx >= 0) & (sx < w) & (sy >= 0) & (sy < h)
                return src(sy, sx, k) if bool(inside) else bv
        return Img((H, W, c), at, image.dtype)
    return warp_affine


def resize_model(orig):
    def imresize(img, scale=None, dsize=None, **kw):
        if not _is_img(img):
            return orig(img, scale=scale, dsize=dsize, **kw)
        img = _plain(img)
        h, w, c = img.shape

        def at(y, x, k):
            raise Opaque()
        if dsize is None:
            # the documented size: rounded to the nearest pixel, at least one
            W = patches.smax(1, round(w * scale))
            H = patches.smax(1, round(h * scale))
        else:
            W, H = dsize
        return Img((H, W, c), at, img.dtype)
    return imresize


def _move(a, s, d):
    perm = list(range(a.ndim))
    s, d = s % a.ndim, d % a.ndim
    perm.insert(d, perm.pop(s))
    return a.transpose(*perm)


STUBS = [
    'images are functions of (row, column, channel) with symbolic extents (vlib/symimg.py): slicing, channel lists, '
    'concatenation, elementwise arithmetic, boolean-mask assignment, astype; ndarrays in the replay',
    'numpy.asanyarray/asarray/concatenate/full, kwimage.warp_affine (whole-pixel translations exact, other transforms: '
    'only the output shape), kwimage.imresize (only the output shape) on such images',
]

_done = []


def install():
    if _done:
        return
    _done.append(1)
    import kwimage

    for name in ('asanyarray', 'asarray', 'array', 'ascontiguousarray'):
        def mk(orig):
            def f(a, *args, **kw):
                if _is_img(a):
                    a = _plain(a)
                    dt = kw.get('dtype', args[0] if args else None)
                    return a if dt is None else a.astype(dt)
                return orig(a, *args, **kw)
            return f
        setattr(np, name, mk(getattr(np, name)))
    cat0 = np.concatenate

    def concatenate(arrs, axis=0, **kw):
        arrs = list(arrs)
        if not any(_is_img(a) for a in arrs):
            return cat0(arrs, axis=axis, **kw)
        arrs = [_plain(a) for a in arrs]
        nd = arrs[0].ndim
        axis = axis % nd
        first = arrs[0].shape
        for a in arrs[1:]:
            for k in range(nd):
                if k != axis and a.shape[k] is not first[k] and not bool(a.shape[k] == first[k]):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        table = [(a, k) for a in arrs for k in range(int(a.shape[axis]))]
        fns = {id(a): (a.at if isinstance(a, Img) else (lambda arr: lambda *i: arr[i])(a)) for a in arrs}
        shape = first[:axis] + (len(table),) + first[axis + 1:]

        def at(*i):
            a, k = table[i[axis]]
            return fns[id(a)](*i[:axis], k, *i[axis + 1:])
        masks = [isinstance(a, Img) and a.mask is not None for a in arrs]
        if any(masks):
            raise sym.Unsupported('numpy.concatenate of masked images')
        return Img(shape, at, np.result_type(*[a.dtype for a in arrs]))
    np.concatenate = concatenate
    ma_cat0 = np.ma.concatenate

    def ma_concatenate(arrs, axis=0):
        arrs = list(arrs)
        if not any(_is_img(a) for a in arrs):
            return ma_cat0(arrs, axis=axis)
        arrs = [_plain(a) for a in arrs]
        data = concatenate([a.data if isinstance(a, Img) else a for a in arrs], axis=axis)
        data.mask = concatenate([a.mask if a.mask is not None else Img(a.shape, lambda *i: False, bool) for a in arrs], axis=axis)
        data.fill_value = next(a.fill_value for a in arrs if a.mask is not None)
        return data
    np.ma.concatenate = ma_concatenate

    def symshape(shape):
        return isinstance(shape, (tuple, list)) and any(sym.is_sym(s) for s in shape)

    def modelled(shape, dtype):
        """buffers that the code under test makes hold symbolic pixels also if their size is known"""
        if sym.CUR is None or not isinstance(shape, (tuple, list)) or len(shape) < 2 or dtype is object:
            return False
        if any(isinstance(v, (int, np.integer)) and v < 0 for v in shape):
            return False
        return sys._getframe(2).f_globals.get('__name__', '').startswith('delayed_image.')

    def creator(name, value, like):
        orig = getattr(np, name)

        def f(shape, dtype=float, *args, **kw):
            if like and _is_img(shape):
                shape = _plain(shape)
                return Img(shape.shape, lambda *i: value, kw.get('dtype') or shape.dtype)
            if not like and (symshape(shape) or modelled(shape, dtype)):
                for v in shape:
                    if sym.is_sym(v) and bool(v < 0):
                        raise ValueError('negative dimensions are not allowed')
                v = {'f': float(value), 'b': bool(value)}.get(np.dtype(dtype).kind, value)
                return Img(shape, lambda *i: v, dtype)
            return orig(shape, *args, **kw) if like else orig(shape, dtype, *args, **kw)
        setattr(np, name, f)
    creator('zeros', 0, False)
    creator('ones', 1, False)
    creator('empty', UNINITIALIZED, False)
    creator('zeros_like', 0, True)
    creator('ones_like', 1, True)
    creator('empty_like', UNINITIALIZED, True)
    full0 = np.full

    def full(shape, fill_value, dtype=None, **kw):
        if symshape(shape) or modelled(shape, dtype):
            for v in shape:
                if sym.is_sym(v) and bool(v < 0):
                    raise ValueError('negative dimensions are not allowed')
            if np.iterable(fill_value):
                fills = tuple(fill_value)
                if len(fills) == 1:
                    fills = fills * int(shape[-1])
                if len(fills) != shape[-1]:
                    raise ValueError('could not broadcast')
                return Img(shape, lambda *i: fills[i[-1]], dtype or float)
            return Img(shape, lambda *i: fill_value, dtype or np.result_type(_scalar_like(fill_value)))
        return full0(shape, fill_value, dtype=dtype, **kw)
    np.full = full
    arange0 = np.arange

    def arange(*args, **kw):
        if any(sym.is_sym(a) for a in args):
            lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
            if len(args) > 2 or any(isinstance(a, sym.SymReal) for a in args):
                raise sym.Unsupported('arange')
            n = patches.smax(hi - lo, 0)
            return Img((n,), lambda i: i + lo, kw.get('dtype') or int)
        return arange0(*args, **kw)
    np.arange = arange
    maarray0 = np.ma.array

    def ma_array(data, mask=np.ma.nomask, *args, **kw):
        if _is_img(data):
            data = _plain(data)
            if mask is np.ma.nomask or isinstance(mask, (bool, np.bool_)):
                m = bool(mask)
                mask = Img(data.shape, lambda *i: m, bool)
            out = Img(data.shape, data.at, data.dtype, mask=mask,
                      fill_value=kw.get('fill_value') or np.ma.default_fill_value(data.dtype))
            return out
        return maarray0(data, *args, mask=mask, **kw)
    np.ma.array = ma_array
    np.ma.masked_array = ma_array
    where0 = np.where

    def where(c, *args):
        if args and any(_is_img(a) for a in (c,) + args):
            c, a, b = [_plain(v) for v in (c,) + args]
            sh = [getattr(v, 'shape', ()) for v in (c, a, b)]
            shape = _broadcast(sh)
            fs = [_caster(v.at if isinstance(v, Img) else (lambda arr: lambda *i: arr[i])(np.asarray(v)), s, len(shape))
                  for v, s in zip((c, a, b), sh)]
            dt = np.result_type(*[v.dtype if hasattr(v, 'dtype') else _scalar_like(v) for v in (a, b)])
            return Img(shape, lambda *i: fs[1](*i) if bool(fs[0](*i)) else fs[2](*i), dt)
        return where0(c, *args)
    np.where = where

    def masked_where(orig):
        def f(condition, a, copy=True):
            if _is_img(condition) or _is_img(a):
                return ma_array(_plain(a), mask=_plain(condition))
            return orig(condition, a, copy=copy)
        return f
    np.ma.masked_where = masked_where(np.ma.masked_where)
    copyto0 = np.copyto

    def copyto(dst, src, *args, where=True, **kw):
        if not _is_img(dst):
            return copyto0(dst, src, *args, where=where, **kw)
        dst[...] = _plain(src) if where is True else np.where(where, src, dst.copy())
    np.copyto = copyto
    stack0 = np.stack

    def stack(arrs, axis=0, **kw):
        arrs = list(arrs)
        if not any(_is_img(a) for a in arrs):
            return stack0(arrs, axis=axis, **kw)
        arrs = [_plain(a) for a in arrs]
        k = axis % (arrs[0].ndim + 1)
        return np.concatenate([a[(slice(None),) * k + (None,)] for a in arrs], axis=k)
    np.stack = stack
    dstack0 = np.dstack

    def dstack(arrs):
        arrs = list(arrs)
        if not any(_is_img(a) for a in arrs):
            return dstack0(arrs)
        return np.concatenate([a[:, :, None] if a.ndim == 2 else a for a in map(_plain, arrs)], axis=2)
    np.dstack = dstack
    ones0 = np.full_like

    def full_like(a, fill_value, dtype=None, **kw):
        if _is_img(a):
            a = _plain(a)
            return np.full(a.shape, fill_value, dtype=dtype or a.dtype)
        return ones0(a, fill_value, dtype=dtype, **kw)
    np.full_like = full_like
    for name, fn in (('moveaxis', lambda a, s, d: _move(a, s, d)), ('transpose', lambda a, axes=None: a.transpose(*(axes or ())))):
        def mk2(orig, fn):
            def f(a, *args, **kw):
                return fn(_plain(a), *args, **kw) if _is_img(a) else orig(a, *args, **kw)
            return f
        setattr(np, name, mk2(getattr(np, name), fn))
    kwimage.warp_affine = warp_model(kwimage.warp_affine)
    kwimage.imresize = resize_model(kwimage.imresize)


@contextlib.contextmanager
def replaced(obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, old)
