"""
Set operations on two channel specifications whose indices are solver
variables: every pattern pair is executed for every way the indices of the two
operands can coincide, and the result is compared with plain ordered set
algebra on the expanded names.
"""
from checks.chanlib import Spec, oset, expand_fused
PROPERTY = 'P18'
EXPECT = ['intersection', 'difference', 'union', 'subset', 'unchanged', 'late-fuse', 'membership', 'sub-sequence']
BOUNDS = ('pattern pairs listed in checks/p18.py (up to 4 codes, up to 3 streams each); every index in [0,100000], '
          'every slice step in [1,5], slices of at most 2 channels (thorough: 4)')
OUTSIDE = 'specifications that name one channel twice in the same stream; operands that are plain strings, except for late fusing'
OPTS = dict(time_s=25, max_paths=1500, query_ms=6000)
OPTS_THOROUGH = dict(time_s=200, max_paths=20000)
BUDGET = {'quick': 120, 'thorough': 1500}

FUSED = [
    ('x|y|z', 'z|y|w'), ('', 'x'), ('x', ''), ('rgb|x', 'b|x|r'), ('rgb', 'rgba'), ('rgba|x', 'rgb'),
    ('m.A|m.B', 'm.C'), ('m.A', 'm.B|m.C'), ('m.A|n.B', 'n.C|m.D'), ('m.A:B|x', 'm.C|x'), ('m.A:B', 'm.C:D'),
    ('m:A', 'm.B:C'), ('m:A', 'm:B'), ('x|m.A|rgb', 'g|m.B|x'), ('m.A|m.B', 'm.C|m.D'), ('m.A:B|y|x', 'x|m.A:C'),
    ('m.A:B:C', 'm.D'),
]
LATE = [
    ('x|y,z', 'z|y'), ('rgb,x|m.A', 'm.B|r'), ('m.A|x,m.B|y', 'x|m.C'), ('m.A:B,x', 'm.C'), ('x,y', 'x,y|z'),
    ('m.A,n.B', 'n.C,m.D'), ('rgb', 'r|g|b'), ('x,m:A', 'm.B|y'),
]


def names(ctx, spec):
    out = [n for n in spec.names[0]]
    return out


def distinct(ctx, spec):
    for st in spec.names:
        ctx.assume(len(set(st)) == len(st))


def two(ctx, a, b, maxlen):
    A = Spec(ctx, a, maxlen, exact=True)
    B = Spec(ctx, b, maxlen, exact=True, vals=A.vals)
    distinct(ctx, A)
    distinct(ctx, B)
    return A, B


def fused(ctx, a, b, maxlen=2):
    from delayed_image.channel_spec import FusedChannelSpec, subsequence_index
    A, B = two(ctx, a, b, maxlen)
    fa, fb = FusedChannelSpec.coerce(A.text), FusedChannelSpec.coerce(B.text)
    na, nb = A.names[0], B.names[0]
    i = [n for n in na if n in nb]
    d = [n for n in na if n not in nb]
    u = na + [n for n in nb if n not in na]
    for got, want, what in [(fa.intersection(fb), i, 'intersection'), (fa & fb, i, 'intersection'),
                            (fa.difference(fb), d, 'difference'), (fa - fb, d, 'difference'),
                            (fa.union(fb), u, 'union'), (fa | fb, u, 'union')]:
        ctx.check(what, list(got.normalize().parsed) == want, lambda: '%s of %r and %r is %r' % (what, A.text, B.text, got.spec))
        ctx.check(what, ctx.eq(got.numel(), len(want)), lambda: '%s of %r and %r has %s channels' % (what, A.text, B.text, got.numel()))
    ctx.check('subset', bool(fa.issubset(fb)) == (not d), lambda: '%r subset of %r: %s' % (A.text, B.text, fa.issubset(fb)))
    ctx.check('subset', bool(fb.issuperset(fa)) == (not d), lambda: '%r superset of %r: %s' % (B.text, A.text, fb.issuperset(fa)))
    ctx.check('unchanged', fa.spec == A.text and fb.spec == B.text and list(fa.parsed) == A.codes[0] and list(fb.parsed) == B.codes[0]
              and list(FusedChannelSpec.coerce(A.text).normalize().parsed) == na, lambda: 'operands %r %r were modified' % (A.text, B.text))
    ctx.check('membership', set(fa.as_set()) == set(na) and list(fa.as_oset()) == na, lambda: 'as_set/as_oset of %r' % A.text)
    for n in nb:
        ctx.check('membership', (n in fa.normalize()) == (n in na), lambda: '%r in %r' % (n, A.text))
    # where one sequence occurs in the other
    found = subsequence_index(fa.as_oset(), fb.as_oset())
    want = [k for k in range(len(na) + 1) if na[k:k + len(nb)] == nb]
    if nb:
        ok = (found is None) == (not want) and (found is None or na[found] == nb)
        ctx.check('sub-sequence', ok, lambda: '%s in %s: %s' % (nb, na, found))


def late(ctx, a, b, maxlen=2):
    from delayed_image.channel_spec import ChannelSpec
    A, B = two(ctx, a, b, maxlen)
    for S in (A, B):
        for i, x in enumerate(S.names):
            ctx.assume(len(x) > 0)
            for y in S.names[:i]:
                ctx.assume(x != y)
    ca, cb = ChannelSpec.coerce(A.text), ChannelSpec.coerce(B.text)
    nb = [n for st in B.names for n in st]
    i = [x for x in ([n for n in st if n in nb] for st in A.names) if x]
    d = [x for x in ([n for n in st if n not in nb] for st in A.names) if x]
    for other, how in [(cb, 'spec'), (cb.fuse(), 'fused')]:
        for got, want, what in [(ca.intersection(other), i, 'intersection'), (ca & other, i, 'intersection'),
                                (ca.difference(other), d, 'difference'), (ca - other, d, 'difference')]:
            streams = [s for s in (expand_fused(ctx, t) for t in got.spec.split(',')) if s]
            ctx.check(what, streams == want, lambda: '%s of %r and %s %r is %r' % (what, A.text, how, B.text, got.spec))
    for got in (ca.union(cb), ca | cb):
        streams = [tuple(expand_fused(ctx, t)) for t in got.spec.split(',')]
        ctx.check('union', set(streams) == set(map(tuple, A.names + B.names)), lambda: 'union of %r and %r is %r' % (A.text, B.text, got.spec))
    for got in (ca.late_fuse(cb), ca + cb, sum([ca, cb]), ca + cb + ChannelSpec.coerce('')):
        streams = [tuple(expand_fused(ctx, t)) for t in got.spec.split(',')]
        ctx.check('late-fuse', streams == list(map(tuple, A.names + B.names)), lambda: 'late fusing %r and %r is %r' % (A.text, B.text, got.spec))
    for left, text, want in [(ca, B.text, A.names + B.names), (ChannelSpec.coerce(''), B.text, B.names), (cb, '', B.names)]:
        # a plain string as the other operand
        try:
            got = left.late_fuse(text)
            known = got is text
            ok = not known and [tuple(expand_fused(ctx, t)) for t in got.spec.split(',')] == list(map(tuple, want))
        except TypeError:
            ok, known = False, True
        ctx.check('late-fuse', ok, 'late fusing a string', known=('late-fuse-string', known))
    for got in (ChannelSpec.coerce('').late_fuse(cb), cb.late_fuse(ChannelSpec.coerce(''))):
        ctx.check('late-fuse', got.spec == B.text, lambda: 'late fusing nothing and %r' % B.text)
    flat = set(n for st in A.names for n in st)
    ctx.check('membership', set(ca.unique()) == flat, lambda: 'unique of %r: %s' % (A.text, ca.unique()))
    for n in nb:
        ctx.check('membership', (n in ca) == (n in flat), lambda: '%r in %r: %s' % (n, A.text, n in ca))
    ctx.check('unchanged', ca.spec == A.text and cb.spec == B.text and [s.spec for s in ca.streams()] == A.streams,
              lambda: 'operands %r %r were modified' % (A.text, B.text))


def tasks(tier):
    m = 2 if tier == 'quick' else 4
    out = [('fused', {'a': a, 'b': b, 'maxlen': m}) for a, b in FUSED]
    out += [('late', {'a': a, 'b': b, 'maxlen': m}) for a, b in LATE]
    return out
