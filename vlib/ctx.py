"""
The context handed to a harness.  The same harness source runs in two modes:

* SymCtx   - inputs are solver variables, `check` asks the solver for a
             violating assignment (symbolic execution);
* ConcCtx  - inputs are the numbers of a counterexample, `check` is a plain
             test (replay on the unpatched code and libraries).
"""
from fractions import Fraction

TOL = 1e-6


class Violation(Exception):
    def __init__(self, label, detail=''):
        super().__init__('%s %s' % (label, detail))
        self.label = label
        self.detail = detail


class Skip(Exception):
    """an assumption of the harness does not hold for the replayed input"""


class KnownFinding(Exception):
    pass


class BaseCtx:
    symbolic = False

    # -- derived inputs -----------------------------------------------------
    def dyadic(self, name, lo, hi, den=8):
        """a real number n/den with lo <= value <= hi (exact in binary)"""
        return self.int(name, int(lo * den), int(hi * den)) / float(den)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if i == k:
                return options[k]
        return options[-1]

    def flag(self, name):
        return bool(self.int(name, 0, 1) == 1)

    def text_numbers(self, exact=False, consts=()):
        """from here on, numbers formatted into text stay symbolic; exact:
        equal numbers have equal texts"""

    def num(self, text):
        """the number a digit string stands for"""
        return int(text)

    def close(self, a, b, tol=TOL):
        return self.all([(a - b) <= tol, (b - a) <= tol])


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, path, ex):
        self.path = path
        self.ex = ex

    def int(self, name, lo, hi):
        import z3
        from vlib import sym
        assert name not in self.path.vars, name
        v = z3.Int(name)
        self.path.vars[name] = v
        self.path.var_order.append(name)
        self.path.add(z3.And(v >= lo, v <= hi))
        if lo == hi:
            return lo
        return sym.SymInt(v)

    def real(self, name, lo, hi):
        import z3
        from vlib import sym
        assert name not in self.path.vars, name
        v = z3.Real(name)
        self.path.vars[name] = v
        self.path.var_order.append(name)
        self.path.add(z3.And(v >= lo, v <= hi))
        return sym.SymReal(v)

    def floating(self, name, dtype, lo, hi):
        """any floating point number of this type in [lo, hi] (bit-precise)"""
        import z3
        from vlib import symfp
        assert name not in self.path.vars, name
        sort = symfp.sort_of(dtype)
        v = z3.FP(name, sort)
        self.path.vars[name] = v
        self.path.var_order.append(name)
        self.path.add(z3.And(z3.fpLEQ(v, z3.FPVal(hi, sort)), z3.fpGEQ(v, z3.FPVal(lo, sort))))
        return symfp.SymFP(v)

    def text_numbers(self, exact=False, consts=()):
        self.path.symtext = 'exact' if exact else 'loose'
        self.path.text_consts = list(consts)

    def num(self, text):
        t = self.path.tokens.get(text)
        return int(text) if t is None else t

    def assume(self, cond):
        import z3
        from vlib import sym
        t = z3.simplify(sym.as_bool_term(cond))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise sym.PathEnd('assumption')
        self.path.add(t)
        # an assumption is a constraint, not a branch; make sure it is feasible
        if self.path.pos >= len(self.path.prefix):
            self.path.get_model()

    def all(self, conds):
        import z3
        from vlib import sym
        return sym.wrapb(z3.And([sym.as_bool_term(c) for c in conds]))

    def any(self, conds):
        import z3
        from vlib import sym
        return sym.wrapb(z3.Or([sym.as_bool_term(c) for c in conds]))

    def implies(self, a, b):
        import z3
        from vlib import sym
        return sym.wrapb(z3.Implies(sym.as_bool_term(a), sym.as_bool_term(b)))

    def not_(self, a):
        import z3
        from vlib import sym
        return sym.wrapb(z3.Not(sym.as_bool_term(a)))

    def ite(self, c, a, b):
        import z3
        from vlib import sym
        t = z3.simplify(sym.as_bool_term(c))
        if z3.is_true(t):
            return a
        if z3.is_false(t):
            return b
        x, y = sym._coerce2(sym.lift(a), sym.lift(b))
        return sym.wrap(z3.If(t, x, y))

    def floor(self, x):
        import math
        return math.floor(x)

    def eq(self, a, b):
        return self.all(list(_eq_conds(a, b)))

    def reach(self, label):
        self.path.reached.add(label)

    def check(self, label, cond, detail=None, known=None):
        import z3
        from vlib import sym
        ex = self.ex
        self.path.reached.add(label)
        t = z3.simplify(sym.as_bool_term(cond))
        ex.stats.inc('assertions')
        if z3.is_true(t):
            ex.labels[label] = ex.labels.get(label, 0) + 1
            ex.stats.inc('discharged_syntactically')
            return
        neg = z3.Not(t)
        if known is not None:
            kid, region = known
            rt = sym.as_bool_term(region)
            seen = sum(c.get('known') == kid for c in ex.cexs)
            r, m = self.path.check_sat(z3.And(neg, rt)) if seen < 2 else (None, None)
            if r == z3.sat:
                ex.cexs.append({'label': label, 'known': kid, 'detail': _detail(self, detail),
                                'inputs': self.path.model_inputs(m)})
                # look for a different violation of the same assertion
            neg = z3.And(neg, z3.Not(rt))
        r, m = self.path.check_sat(neg)
        if r == z3.unsat:
            ex.labels[label] = ex.labels.get(label, 0) + 1
            return
        if r == z3.unknown:
            ex.undecided.append(label)
            return
        ex.cexs.append({'label': label, 'detail': _detail(self, detail),
                        'inputs': self.path.model_inputs(m), 'more': self.path.other_models(neg, m)})
        raise sym.PathEnd('violated')

    def raises(self, fn, allowed):
        """run fn; True if it raised one of the allowed exceptions"""
        try:
            fn()
        except allowed:
            return True
        return False


class ConcCtx(BaseCtx):
    def __init__(self, inputs, fill=None):
        self.inputs = inputs
        self.reached = set()
        self.known = None
        self.rng = None
        if fill is not None:
            import random
            self.rng = random.Random(fill)

    def given(self, name, lo, hi, whole):
        if name not in self.inputs and self.rng is not None:
            if whole:
                # small numbers and the ends of the range as often as others
                v = self.rng.choice([self.rng.randint(lo, hi), self.rng.randint(max(lo, min(0, hi)), min(hi, max(lo, 8))), lo, hi])
            else:
                lo, hi = float(Fraction(lo)), float(Fraction(hi))
                v = min(max(round(self.rng.uniform(lo, hi) * 64) / 64, lo), hi)
                v = self.rng.choice([lo, hi, v, v])
            self.inputs[name] = v
        return self.inputs.get(name, lo)

    def int(self, name, lo, hi):
        return int(self.given(name, lo, hi, True))

    def real(self, name, lo, hi):
        return float(Fraction(self.given(name, lo, hi, False)))

    def floating(self, name, dtype, lo, hi):
        import numpy as np
        return np.dtype(dtype).type(self.given(name, lo, hi, False))

    def assume(self, cond):
        if not _truth(cond):
            raise Skip()

    def all(self, conds):
        return all(_truth(c) for c in conds)

    def any(self, conds):
        return any(_truth(c) for c in conds)

    def implies(self, a, b):
        return (not _truth(a)) or _truth(b)

    def not_(self, a):
        return not _truth(a)

    def ite(self, c, a, b):
        return a if _truth(c) else b

    def floor(self, x):
        import math
        return math.floor(x)

    def eq(self, a, b):
        return all(_truth(c) for c in _eq_conds(a, b))

    def reach(self, label):
        self.reached.add(label)

    def check(self, label, cond, detail=None, known=None):
        self.reached.add(label)
        if not _truth(cond):
            if known is not None and _truth(known[1]):
                # keep looking for a different violation on the same input
                self.known = self.known or (known[0], label, _detail(self, detail))
                return
            raise Violation(label, _detail(self, detail))

    def raises(self, fn, allowed):
        try:
            fn()
        except allowed:
            return True
        return False


def _detail(ctx, d):
    """messages are only rendered from numbers, never from solver terms"""
    if callable(d):
        return '' if ctx.symbolic else str(d())
    return str(d or '')


def _truth(c):
    if hasattr(c, 'all') and hasattr(c, 'dtype'):
        return bool(c.all())
    return bool(c)


def _eq_conds(a, b):
    """structural equality as a list of conditions (no path forking)"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            yield False
            return
        for x, y in zip(a, b):
            yield from _eq_conds(x, y)
    elif isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            yield False
            return
        for k in a:
            yield from _eq_conds(a[k], b[k])
    elif a is None or b is None:
        yield (a is b)
    elif isinstance(a, slice) and isinstance(b, slice):
        yield from _eq_conds((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    else:
        r = (a == b)
        if hasattr(r, 'ravel') and not hasattr(r, 'e'):
            if (getattr(a, 'shape', None) or ()) != (getattr(b, 'shape', None) or ()):
                yield False
            else:
                yield from list(r.ravel())
        else:
            yield r
