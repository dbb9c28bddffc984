"""
Sensor/channel specifications with symbolic channel indices: normalizing,
condensing, splitting, fusing and selecting a sensor are compared with the set
of (sensor, channel list) pairs that the text denotes.
"""
from checks.chanlib import Spec, expand_fused, same
PROPERTY = 'P20'
EXPECT = ['streams', 'normalize', 'concise', 'split', 'late-fuse', 'matching-sensor', 'count', 'chans', 'unchanged']
BOUNDS = ('texts listed in checks/p20.py (up to 4 stream items, sensor and channel groups of up to 3); every index in '
          '[0,100000], slices of at most 2 channels (thorough: 4); the text is parsed by the real grammar with the '
          'indices symbolic')
OUTSIDE = 'identifiers other than those used; slices with a step (not in this grammar)'
OPTS = dict(time_s=30, max_paths=800, query_ms=6000)
OPTS_THOROUGH = dict(time_s=200, max_paths=20000)
BUDGET = {'quick': 130, 'thorough': 1500}

# (sensors, channel streams) items; the text is assembled from them
TEXTS = [
    [[['S'], ['x|y']]],
    [[['S'], ['m.A:B']]],
    [[['S'], ['m:A|x']]],
    [[[], ['m.A|m.B']]],
    [[['S'], ['']]],
    [[['S'], ['x']], [['T'], ['x']]],
    [[['S'], ['m.A']], [['T'], ['m.B']]],
    [[['S'], ['x']], [['S'], ['y']], [['T'], ['x']]],
    [[['S', 'T'], ['x|m.A']]],
    [[['S', 'T'], ['x', 'm.A:B|y']]],
    [[['S', 'T'], ['m.A']], [['S'], ['m.B']]],
    [[['S', 'T', 'U'], ['x', 'y|z']], [['U'], ['w']]],
    [[['S'], ['rgb']], [['T'], ['r|g|b']]],
    [[['*'], ['x', 'm.A|m.B']], [['S'], ['x']]],
    [[['S'], ['m.A:B']], [['T'], ['m.C|m.D']]],
    [[['S'], ['m.A|n.B']], [[], ['x']], [['T'], ['rgb|m.A']]],
    [[['*'], ['x']], [['S'], ['x|y']], [['T'], ['z']]],
    [[['S-1'], ['m.A']], [['b 2'], ['m.B', 'm.C']]],
    [[['S'], ['m.A|m.B|x|m.C']]],
    [[['T'], ['x']], [['S'], ['x']], [['S'], ['x']]],
    [[['T', 'S'], ['y', 'x']], [['S', 'T'], ['z']]],
]


class SC:
    def __init__(self, ctx, items, maxlen, vals=None):
        self.meaning = []
        self.codes = []
        texts = []
        vals = {} if vals is None else vals
        self.vals = vals
        for sensors, chans in items:
            cs = [Spec(ctx, p, maxlen, vals=vals) for p in chans]
            lhs = '' if not sensors else sensors[0] + ':' if len(sensors) == 1 else '(%s):' % ','.join(sensors)
            rhs = cs[0].text if len(cs) == 1 else '(%s)' % ','.join(c.text for c in cs)
            texts.append(lhs + rhs)
            for s in (sensors or ['*']):
                for c in cs:
                    self.meaning.append((s, tuple(c.names[0])))
        self.text = ','.join(texts)


def split_top(text):
    out, depth, cur = [], 0, ''
    for ch in text:
        if ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def denote(ctx, text):
    """the (sensor, names) pairs of an output text, without the code under test"""
    pairs = []
    for item in split_top(text):
        if item.startswith('(') and '):' in item:
            lhs, rhs = item[1:].split('):', 1)
            sensors = lhs.split(',')
        else:
            head = item.split(':', 1)
            if len(head) == 2 and not head[1][:1].isdigit():
                sensors, rhs = [head[0]], head[1]
            else:
                sensors, rhs = ['*'], item
        if rhs.startswith('('):
            assert rhs.endswith(')'), text
            chans = rhs[1:-1].split(',')
        else:
            chans = [rhs]
        for s in sensors:
            for c in chans:
                pairs.append((s, tuple(expand_fused(ctx, c))))
    return pairs


def pairs_of(ctx, streams):
    return [(s.sensor.spec, tuple(expand_fused(ctx, s.chans.spec))) for s in streams]


def same_pairs(ctx, xs, ys):
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys) or [x[0] for x in xs] != [y[0] for y in ys]:
        return False
    return ctx.all([same(ctx, x[1], y[1]) for x, y in zip(xs, ys)])


def same_set(ctx, xs, ys):
    def inside(x, zs):
        return ctx.any([same(ctx, x[1], z[1]) for z in zs if z[0] == x[0]])
    return ctx.all([inside(x, ys) for x in xs] + [inside(y, xs) for y in ys])


def one(ctx, items, maxlen=2):
    from delayed_image.sensorchan_spec import SensorChanSpec, FusedSensorChanSpec
    sc = SC(ctx, items, maxlen)
    spec = SensorChanSpec.coerce(sc.text)
    want = sc.meaning
    got = pairs_of(ctx, spec.streams())
    ctx.check('streams', same_pairs(ctx, got, want), lambda: 'streams of %r: %s instead of %s' % (sc.text, got, want))
    norm = spec.normalize()
    d = denote(ctx, norm.spec)
    ctx.check('normalize', same_pairs(ctx, d, want), lambda: '%r normalized to %r' % (sc.text, norm.spec))
    ctx.check('normalize', all(':' not in c.split(':', 1)[1] for c in split_top(norm.spec)), lambda: '%r still has slices' % norm.spec)
    ctx.check('normalize', same_pairs(ctx, pairs_of(ctx, norm.streams()), want), lambda: '%r read back' % norm.spec)
    con = spec.concise()
    d = denote(ctx, con.spec)
    ctx.check('concise', same_set(ctx, d, want), lambda: '%r condensed to %r' % (sc.text, con.spec))
    ctx.check('concise', same_set(ctx, pairs_of(ctx, con.streams()), want), lambda: '%r condensed to %r, read back as %s' % (
        sc.text, con.spec, pairs_of(ctx, con.streams())))
    n = spec.numel()
    ctx.check('count', ctx.eq(n, sum(len(c) for _, c in want)), lambda: 'numel of %r is %s' % (sc.text, n))
    sp = spec.split()
    want_split = [(s, (c,)) for s, cs in want for c in cs]
    got = [p for p in pairs_of(ctx, sp.streams()) if p[1]]
    ctx.check('split', same_pairs(ctx, got, want_split), lambda: 'split of %r is %r' % (sc.text, sp.spec))
    for s in sorted(set(s for s, _ in want) | {'S', 'Z'}):
        m = spec.matching_sensor(s)
        got = [p for p in denote(ctx, m.spec) if p[1]]
        exp = [p for p in want if (s == '*' or p[0] in (s, '*')) and p[1]]
        ctx.check('matching-sensor', same_pairs(ctx, got, exp), lambda: 'matching %r in %r gives %r' % (s, sc.text, m.spec))
    if len(set(s for s, _ in want)) == 1 and all(c for _, c in want):
        ch = spec.chans
        got = [tuple(expand_fused(ctx, t.spec)) for t in ch.streams()]
        ctx.check('chans', len(got) == len(want) and ctx.all([same(ctx, g, c) for g, (_, c) in zip(got, want)]), lambda: 'channels of %r: %r' % (sc.text, ch.spec))
    for p, (s, names) in zip(spec.streams(), want):
        if names:
            f = FusedSensorChanSpec.coerce(p.spec)
            ctx.check('streams', ctx.all([same_pairs(ctx, pairs_of(ctx, [f]), [(s, names)]), ctx.eq(f.numel(), len(names))]), lambda: 'single stream %r' % p.spec)
    ctx.check('unchanged', ctx.all([spec.spec == sc.text, same_pairs(ctx, pairs_of(ctx, spec.streams()), want)]), lambda: '%r was modified' % sc.text)


def group(ctx, first, known=False):
    """a parenthesized group of channel streams without a sensor"""
    from delayed_image.sensorchan_spec import SensorChanSpec
    sc = SC(ctx, [[[], [first, 'm.A:B']]], 2)
    out = []

    def run():
        out.extend(pairs_of(ctx, SensorChanSpec.coerce(sc.text).streams()))
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        failed = ctx.raises(run, Exception)
    ctx.check('group', not failed, lambda: '%r cannot be read' % sc.text, known=('bare-group', True) if known else None)
    if not failed:
        ctx.check('group', same_pairs(ctx, out, sc.meaning), lambda: 'streams of %r: %s' % (sc.text, out))


def fuse(ctx, a, b, maxlen=2):
    from delayed_image.sensorchan_spec import SensorChanSpec
    A = SC(ctx, a, maxlen)
    B = SC(ctx, b, maxlen, vals=A.vals)
    sa, sb = SensorChanSpec.coerce(A.text), SensorChanSpec.coerce(B.text)
    want = A.meaning + B.meaning
    empty = SensorChanSpec.coerce('')
    for got in (sa.late_fuse(sb), sa + sb, sum([sa, sb]), sa.late_fuse(empty, sb), sum([sa.streams()[0]] + sa.streams()[1:] + [sb])):
        p = pairs_of(ctx, got.streams())
        ctx.check('late-fuse', same_pairs(ctx, p, want), lambda: 'fusing %r and %r gives %r' % (A.text, B.text, got.spec))
    ctx.check('unchanged', sa.spec == A.text and sb.spec == B.text)


def tasks(tier):
    m = 2 if tier == 'quick' else 4
    out = [('one', {'items': t, 'maxlen': m}) for t in TEXTS]
    pairs = [(0, 1), (3, 6), (8, 9), (5, 10), (13, 2), (12, 15)]
    out += [('fuse', {'a': TEXTS[i], 'b': TEXTS[j], 'maxlen': m}) for i, j in pairs]
    out += [('group', {'first': f}) for f in ('x|y', 'n.A', 'n:A')]
    out += [('group', {'first': 'x', 'known': True})]
    return out
