"""
Bit-precise floating point numbers: a value is a term of z3's floating point theory,
every operation rounds to nearest even in the precision that numpy would use.
"""
import struct

import numpy as np
import z3
from vlib import sym

SORTS = {2: z3.FPSort(5, 11), 4: z3.FPSort(8, 24), 8: z3.FPSort(11, 53)}
RNE = z3.RNE()


def sort_of(dtype):
    return SORTS[np.dtype(dtype).itemsize]


def _bits(s):
    return s.ebits() + s.sbits()


class SymFP:
    """a finite floating point number; integral=True: an integer that is stored exactly"""
    __slots__ = ('e', 'integral')
    __array_ufunc__ = None

    def __init__(self, e, integral=False):
        self.e = e
        self.integral = integral

    @property
    def sort(self):
        return self.e.sort()

    def to(self, sort):
        if sort == self.sort:
            return self
        return SymFP(z3.fpToFP(RNE, self.e, sort), self.integral)

    def astype(self, dtype):
        dt = np.dtype(dtype)
        if dt.kind == 'f':
            v = self.to(sort_of(dt))
            return SymFP(v.e)
        assert dt.kind in 'iu'
        t = SymFP(z3.fpRoundToIntegral(z3.RTZ(), self.e), True).to(SORTS[8])
        info = np.iinfo(dt)
        hi = 2.0 ** (dt.itemsize * 8 - (dt.kind == 'i'))      # one above the largest code
        lo = float(info.min)
        if bool(sym.wrapb(z3.Or(z3.fpGEQ(t.e, z3.FPVal(hi, SORTS[8])), z3.fpLT(t.e, z3.FPVal(lo, SORTS[8]))))):
            return int(info.min)        # not defined; what common processors give
        return t

    def _other(self, o):
        """both operands in the precision of the result"""
        if isinstance(o, SymFP):
            s = self.sort if _bits(self.sort) >= _bits(o.sort) else o.sort
            return self.to(s).e, o.to(s).e
        if isinstance(o, (np.floating, np.integer, np.ndarray)):
            if isinstance(o, np.ndarray):
                assert o.ndim == 0
            s = self.sort
            if o.dtype.kind != 'f' or o.dtype.itemsize * 8 > _bits(s):
                s = SORTS[8]
            return self.to(s).e, z3.FPVal(float(o), s)
        if isinstance(o, (bool, int, float)):
            return self.e, z3.FPVal(float(o), self.sort)
        return None

    def _bin(self, o, f, rev=False):
        ab = self._other(o)
        if ab is None:
            return NotImplemented
        a, b = ab
        return SymFP(f(RNE, b, a) if rev else f(RNE, a, b))

    def __add__(self, o):
        return self._bin(o, z3.fpAdd)

    def __radd__(self, o):
        return self._bin(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._bin(o, z3.fpSub)

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._bin(o, z3.fpMul)

    def __rmul__(self, o):
        return self._bin(o, z3.fpMul, True)

    def __truediv__(self, o):
        return self._bin(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._bin(o, z3.fpDiv, True)

    def __neg__(self):
        return SymFP(z3.fpNeg(self.e))

    def __abs__(self):
        return SymFP(z3.fpAbs(self.e))

    def _cmp(self, o, f):
        if isinstance(o, float) and o != o:
            return False
        # comparisons are exact: in the widest format
        a = self.to(SORTS[8]).e
        if isinstance(o, SymFP):
            b = o.to(SORTS[8]).e
        elif isinstance(o, (bool, int, float, np.number)):
            b = z3.FPVal(float(o), SORTS[8] if self.integral or not isinstance(o, (int, float)) else self.sort)
            if b.sort() == self.sort:
                a = self.e
        else:
            return NotImplemented
        return sym.wrapb(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(z3.fpEQ(a, b)))

    __hash__ = None

    def _round(self, mode):
        return SymFP(z3.fpRoundToIntegral(mode, self.e), self.integral)

    def __floor__(self):
        return self._round(z3.RTN())

    def __ceil__(self):
        return self._round(z3.RTP())

    def __trunc__(self):
        return self._round(z3.RTZ())

    def __round__(self, nd=None):
        return self._round(RNE)

    def __repr__(self):
        return '<SymFP>'


def value(v):
    """the python float of a z3 floating point value"""
    bits = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    n = _bits(v.sort()) // 8
    return struct.unpack({2: '<e', 4: '<f', 8: '<d'}[n], bits.to_bytes(n, 'little'))[0]
