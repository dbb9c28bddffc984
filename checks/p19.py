"""
Data laid out according to a channel specification: component lookup, encoding
of items into fused inputs and decoding back.  Channel values, slice starts and
slice widths are solver variables; arrays hold solver terms.
"""
import numpy as np
from checks.chanlib import Spec
PROPERTY = 'P19'
EXPECT = ['component', 'encode', 'decode', 'partition', 'inputs-unchanged']
BOUNDS = ('patterns listed in checks/p19.py; slice starts in [0,100000], widths up to 3 (thorough: 6), one extra axis of '
          'size 2; channel values any integer in [-1000,1000]')
OUTSIDE = 'tensors of other libraries; the same code in two streams'
OPTS = dict(time_s=25, max_paths=1500, query_ms=6000)
OPTS_THOROUGH = dict(time_s=200, max_paths=20000)
BUDGET = {'quick': 120, 'thorough': 1200}

SPECS = ['x', 'x|rgb|y', 'm.A:B', 'm:A|x', 'x|m.A:B|rgb|n:C', 'm.A:B:C|x', 'x,y', 'rgb|x,m:A|y', 'm.A:B|x,n.C:D|rgb,z',
         'm.A|x|m.B']
# how the input item groups the codes of the spec
ENC = [('rgb|x', ['rgb', 'x']), ('x|rgb', ['rgb|x']), ('x|y|z', ['x|y|z']), ('x|y,z', ['z|x|y']), ('y,x', ['x|y']),
       ('x|m:A|y', ['m:A', 'y|x']), ('m:A|x,rgb|n:B', ['rgb|n:B|m:A', 'x']), ('z|x|y', ['x|y|z']), ('x|z', ['x|y|z']),
       ('m.A:B|x|rgb', ['x|rgb', 'm.A:B']), ('a|b|c|d', ['a|b', 'c|d']), ('b|c|a', ['a|b|c']), ('a|b|d|e', ['a|b|c|d|e']),
       ('a|b|c', ['c', 'b', 'a']), ('n:A|m:B', ['m:B|n:A']), ('a|c|b', ['a|b|c']), ('a|b|x|c|d', ['a|b|c|d', 'x'])]


def cells(ctx, name, n, axis):
    """an array with n channels on the given axis and 2 entries on every other one"""
    shape = [2] * (axis + 1)
    shape[axis] = n
    if axis == 0:
        shape = [n, 2]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = ctx.int('%s_%s' % (name, '_'.join(map(str, idx))), -1000, 1000)
    return out


def encoded(ctx, cs, item, axis, mode, codes):
    """encode; known: mode 0 does not find the codes that stand for several channels (or for none)"""
    try:
        return cs.encode(item, axis=axis, mode=mode)
    except (KeyError, ValueError) as ex:
        groups = any(':' in c or c in ('rgb', 'rgba') for c in codes)
        if isinstance(ex, ValueError) and 'need at least one array' not in str(ex):
            raise
        ctx.check('encode', False, repr(ex), known=('simple-encode-groups', mode == 0 and groups))
        return None


def layout(ctx, pattern, axis, maxlen=3):
    from delayed_image.channel_spec import ChannelSpec, FusedChannelSpec
    spec = Spec(ctx, pattern, maxlen)
    cs = ChannelSpec.coerce(spec.text)
    codes = [c for st in spec.codes for c in st]
    ctx.assume(len(set(codes)) == len(codes))
    widths = [[len(p) for p in st] for st in spec.parts]
    inputs = {t: cells(ctx, 'v%d' % k, sum(w), axis) for k, (t, w) in enumerate(zip(spec.streams, widths))}
    keep = {k: v.copy() for k, v in inputs.items()}
    found = cs.component_indices(axis=axis)
    dec = cs.decode(inputs, axis=axis)
    ctx.check('partition', set(found) == set(codes) and set(dec) == set(codes), lambda: '%r: %s %s' % (spec.text, set(found), set(dec)))
    for text, st, ws in zip(spec.streams, spec.codes, widths):
        at = counted = 0
        fused = FusedChannelSpec.coerce(text)
        single = fused.component_indices(axis=axis)
        ctx.check('partition', list(single) == list(st), lambda: 'components of %r: %s' % (text, list(single)))
        for code, w in zip(st, ws):
            want = np.take(inputs[text], range(at, at + w), axis=axis)
            key, index = found[code]
            ctx.check('component', key == text and _same(ctx, inputs[key][index], want),
                      lambda: 'component %r of %r is at %s' % (code, spec.text, found[code]))
            # known: counts every slice of channels as one channel
            cw = 1 if ':' in code else w
            span = single[code][axis]
            ctx.check('component', _same(ctx, inputs[text][single[code]], want),
                      lambda: 'component %r of stream %r is at %s' % (code, text, single[code]),
                      known=('fused-component-slices', ctx.all([span.start == counted, span.stop == counted + cw])))
            counted += cw
            ctx.check('decode', _same(ctx, dec[code], want), lambda: 'decoding %r of %r gives shape %s' % (code, spec.text, dec[code].shape))
            at += w
    for mode in (0, 1):
        enc = encoded(ctx, cs, dec, axis, mode, codes)
        if enc is None:
            continue
        ctx.check('decode', set(enc) == set(inputs) and ctx.all([_same(ctx, enc[k], inputs[k]) for k in inputs]),
                  lambda: 'encoding the decoded %r (mode %d)' % (spec.text, mode))
    ctx.check('inputs-unchanged', ctx.all([_same(ctx, inputs[k], keep[k]) for k in keep]))


def encode(ctx, pattern, keys, axis, maxlen=3):
    from delayed_image.channel_spec import ChannelSpec
    spec = Spec(ctx, pattern, maxlen)
    items = [Spec(ctx, k, maxlen, vals=spec.vals) for k in keys]
    item = {}
    comp = {}
    for k, s in enumerate(items):
        ws = [len(p) for p in s.parts[0]]
        arr = cells(ctx, 'v%d' % k, sum(ws), axis)
        item[s.text] = arr
        at = 0
        for code, w in zip(s.codes[0], ws):
            comp[code] = np.take(arr, range(at, at + w), axis=axis)
            at += w
    keep = {k: v.copy() for k, v in item.items()}
    cs = ChannelSpec.coerce(spec.text)
    for mode in (1, 0):
        out = encoded(ctx, cs, item, axis, mode, [c for st in spec.codes for c in st])
        if out is None:
            continue
        ctx.check('encode', set(out) == set(spec.streams), lambda: '%r: %s' % (spec.text, list(out)))
        for text, st in zip(spec.streams, spec.codes):
            want = np.concatenate([comp[c] for c in st], axis=axis)
            ctx.check('encode', _same(ctx, out[text], want),
                      lambda: 'stream %r of %r from %s (mode %d)' % (text, spec.text, list(item), mode))
    ctx.check('inputs-unchanged', ctx.all([_same(ctx, item[k], keep[k]) for k in keep]))


def _same(ctx, a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return False
    return ctx.all([x == y for x, y in zip(a.ravel().tolist(), b.ravel().tolist())])


def tasks(tier):
    m = 3 if tier == 'quick' else 6
    out = [('layout', {'pattern': p, 'axis': ax, 'maxlen': m}) for p in SPECS for ax in (0, 1, 2)]
    out += [('encode', {'pattern': p, 'keys': k, 'axis': ax, 'maxlen': m}) for p, k in ENC for ax in (0, 1)]
    return out
