"""
Every pattern is a channel specification text whose indices are solver
variables that stay symbolic while the real code splits, parses and formats
the text.  The expansion, the element counts, the concise form, fusing and
splitting are compared with the documented grammar.
"""
from checks.chanlib import Spec, expand_fused, expand, same, same_streams, split_text
PROPERTY = 'P17'
EXPECT = ['expansion', 'count', 'concise-roundtrip', 'concise-minimal', 'text-roundtrip', 'streams', 'unchanged',
          'split', 'fuse']
BOUNDS = ('patterns listed in checks/p17.py (up to 4 codes per stream, up to 3 streams); every index in [0,100000], '
          'every slice step in [1,5], slices of at most 3 channels (thorough: 6)')
OUTSIDE = 'names that are not identifiers of the documented grammar; slices longer than the bound'
OPTS = dict(time_s=25, max_paths=1500, query_ms=6000)
OPTS_THOROUGH = dict(time_s=200, max_paths=20000)
BUDGET = {'quick': 120, 'thorough': 1500}

FUSED = [
    'x', '', 'rgb', 'x|rgb|y', 'm.A', 'm:A', 'm.A:B', 'm.A:B:C', 'm:A:B', 'm.:A', 'm::B:C', 'm.A:B|x', 'x|m:A|rgb',
    'm.A|m.B', 'm.A|m.B|m.C', 'm.A|n.B', 'm.A:B|m.C:D', 'm.A:B|n.C:D', 'm.A|x|m.B', 'm.A|rgb|m.B:C',
    'm:A|m.B', 'a|m.A:B|m.C|b', 'm.A|n.B|m.C', 'dxdy|m.A:B|fxfy', 'm.A:B:2|m.C', 'm.A|m.B|n.C|n.D',
    'rgba|x', 'm_q.A:B|n_q:C',
]
LATE = ['x,y', 'rgb,m:A', 'm.A:B,n.C:D', 'm.A|x,n.B', 'm.A:B|rgb,x|y', 'm.A,n.B,o.C', 'x|m.A|m.B,y', 'a|b,c|d|e,rgb']


def fused(ctx, pattern, maxlen=3):
    from delayed_image.channel_spec import FusedChannelSpec
    spec = Spec(ctx, pattern, maxlen)
    names = spec.names[0]
    fs = FusedChannelSpec.coerce(spec.text)
    count = fs.numel()
    sizes = list(fs.sizes())
    ctx.check('count', ctx.eq(count, len(names)), lambda: '%r has %d channels, numel says %s' % (spec.text, len(names), count))
    ctx.check('count', ctx.eq(sizes, [len(p) for p in spec.parts[0]]), lambda: '%r sizes %s' % (spec.text, sizes))
    norm = fs.normalize()
    ctx.check('expansion', same(ctx, norm.parsed, names), lambda: '%r normalized to %s instead of %s' % (spec.text, norm.parsed, names))
    ctx.check('expansion', same_streams(ctx, split_text(norm.spec), [names]), lambda: '%r: %r' % (spec.text, norm.spec))
    ctx.check('count', ctx.all([len(norm) == len(names), ctx.eq(norm.numel(), len(names)),
                                ctx.eq(list(norm.sizes()), [1] * len(names))]),
              lambda: 'normalized %r: numel %s sizes %s' % (spec.text, norm.numel(), norm.sizes()))
    ctx.check('expansion', same(ctx, norm.normalize().parsed, names), lambda: '%r normalized twice' % spec.text)
    ctx.check('expansion', same(ctx, fs.as_list(), names), lambda: 'as_list of %r' % spec.text)
    con = fs.concise()
    got = expand_fused(ctx, con.spec)
    ctx.check('concise-roundtrip', same(ctx, got, names), lambda: '%r concise is %r which names %s' % (spec.text, con.spec, got))
    ctx.check('concise-roundtrip', same(ctx, con.normalize().parsed, names), lambda: '%r -> %r -> %s' % (spec.text, con.spec, con.normalize().parsed))
    ctx.check('concise-roundtrip', ctx.eq(con.numel(), len(names)), lambda: '%r concise numel %s' % (spec.text, con.numel()))
    # neighbouring codes of the concise form are never mergeable
    codes = [c for c in con.spec.split('|') if c]
    for a, b in zip(codes, codes[1:]):
        ea, eb = expand(ctx, a)[-1], expand(ctx, b)[0]
        if '.' in ea and '.' in eb and ea.split('.')[0] == eb.split('.')[0]:
            ctx.check('concise-minimal', ctx.not_(ctx.eq(ctx.num(ea.split('.')[1]) + 1, ctx.num(eb.split('.')[1]))),
                      lambda: '%r has adjacent runs %s, %s' % (con.spec, a, b))
    ctx.check('concise-minimal', len(con.concise().parsed) == len(con.parsed), lambda: 'concise of %r is %r' % (con.spec, con.concise().spec))
    again = FusedChannelSpec.coerce(con.spec)
    ctx.check('text-roundtrip', same(ctx, again.normalize().parsed, names), lambda: '%r read back' % con.spec)
    ctx.check('unchanged', fs.spec == spec.text and list(fs.parsed) == spec.codes[0] and
              ctx.eq(FusedChannelSpec.coerce(spec.text).numel(), len(names)), lambda: '%r was modified: %r' % (spec.text, fs.parsed))
    if names:
        single = fs.split()
        ctx.check('split', same(ctx, [s.spec for s in single.streams()], names), lambda: 'split of %r is %r' % (spec.text, single.spec))
    # indexing
    for k in range(len(names)):
        ctx.check('expansion', same(ctx, [fs[k]], [names[k]]), lambda: '%r[%d] is %r' % (spec.text, k, fs[k]))
    ctx.check('expansion', same(ctx, fs[1:].parsed, names[1:]), lambda: '%r[1:]' % spec.text)
    if len(names) > 1:
        ctx.check('expansion', same(ctx, fs[[len(names) - 1, 0]].parsed, [names[-1], names[0]]), lambda: '%r[[-1, 0]]' % spec.text)


def late(ctx, pattern, maxlen=3):
    from delayed_image.channel_spec import ChannelSpec
    spec = Spec(ctx, pattern, maxlen)
    # streams are an unordered set; only distinct ones are meaningful
    for i, a in enumerate(spec.names):
        ctx.assume(len(a) > 0)
        for b in spec.names[:i]:
            ctx.assume(ctx.not_(same(ctx, a, b)))
    cs = ChannelSpec.coerce(spec.text)
    flat = [n for st in spec.names for n in st]
    ctx.check('streams', [s.spec for s in cs.streams()] == spec.streams, lambda: 'streams of %r' % spec.text)
    ctx.check('streams', list(cs.keys()) == spec.streams, lambda: 'keys of %r' % spec.text)
    ctx.check('count', ctx.eq(cs.numel(), len(flat)), lambda: '%r numel %s' % (spec.text, cs.numel()))
    ctx.check('count', ctx.eq(dict(cs.sizes()), {t: len(n) for t, n in zip(spec.streams, spec.names)}), lambda: 'sizes of %r: %s' % (spec.text, cs.sizes()))
    norm = cs.normalize()
    ctx.check('expansion', same_streams(ctx, split_text(norm.spec), spec.names), lambda: '%r normalized to %r' % (spec.text, norm.spec))
    ctx.check('expansion', same_streams(ctx, [s.parsed for s in norm.streams()], spec.names), lambda: 'normalized streams of %r' % spec.text)
    con = cs.concise()
    got = [expand_fused(ctx, t) for t in con.spec.split(',')]
    ctx.check('concise-roundtrip', same_streams(ctx, got, spec.names), lambda: '%r concise %r' % (spec.text, con.spec))
    ctx.check('concise-roundtrip', same_streams(ctx, split_text(con.normalize().spec), spec.names), lambda: '%r concise %r normalizes to %r' % (spec.text, con.spec, con.normalize().spec))
    fu = cs.fuse()
    ctx.check('fuse', same(ctx, fu.normalize().parsed, flat), lambda: '%r fused to %r' % (spec.text, fu.spec))
    ctx.check('fuse', ctx.eq(fu.numel(), len(flat)), lambda: '%r fused has %s' % (spec.text, fu.numel()))
    sp = cs.split()
    ctx.check('split', same(ctx, [s.spec for s in sp.streams()], flat), lambda: '%r split to %r' % (spec.text, sp.spec))
    ctx.check('unchanged', cs.spec == spec.text and [s.spec for s in cs.streams()] == spec.streams, lambda: '%r was modified' % spec.text)


def count(ctx):
    """an integer stands for that many unnamed channels"""
    from delayed_image.channel_spec import FusedChannelSpec, ChannelSpec
    n = ctx.int('n', 1, 9)
    a = FusedChannelSpec.coerce(int(n))
    ctx.check('count', ctx.all([ctx.eq(a.numel(), n), len(set(a.normalize().parsed)) == n]), lambda: 'coerce(%s) is %r' % (n, a.spec))
    b = ChannelSpec.coerce(int(n))
    ctx.check('count', ctx.all([ctx.eq(b.numel(), n), len(b.fuse().as_set()) == n]), lambda: 'ChannelSpec.coerce(%s) is %r' % (n, b.spec))


def tasks(tier):
    m = 3 if tier == 'quick' else 6
    out = [('fused', {'pattern': p, 'maxlen': m}) for p in FUSED]
    out += [('late', {'pattern': p, 'maxlen': m}) for p in LATE]
    return out + [('count', {})]
