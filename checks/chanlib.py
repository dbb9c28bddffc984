"""
Channel specifications with symbolic indices.  A configuration fixes the
structure of the text, e.g. "m.A:B|x|rgb,n:C"; the upper case letters are
numbers: they stay solver variables while the text is split, parsed and
formatted by the code under test.
"""
import re

ALIAS = {'rgb': ['r', 'g', 'b'], 'rgba': ['r', 'g', 'b', 'a'], 'dxdy': ['dx', 'dy'], 'fxfy': ['fx', 'fy']}
HI = 100000
MAXLEN = 3


class Spec:
    """text plus its meaning: a list of streams, a stream is a list of parts,
    a part is a list of names (a name is a text with exact numbers)"""

    def __init__(self, ctx, pattern, maxlen=MAXLEN, exact=False, vals=None):
        ctx.text_numbers(exact, range(maxlen) if exact and re.search(r'[:.]:|[a-z_]:', pattern) else ())
        self.pattern = pattern
        self.vals = {} if vals is None else vals
        for v in sorted(set(re.findall(r'[A-Z]', pattern)) - set(self.vals)):
            self.vals[v] = ctx.int(v, 0, HI)
        streams = [[self._part(ctx, code, maxlen) for code in st.split('|') if code] for st in pattern.split(',')]
        self.parts = [[p[1] for p in st] for st in streams]
        self.streams = ['|'.join(p[0] for p in st) for st in streams]
        self.text = ','.join(self.streams)
        self.codes = [[p[0] for p in st] for st in streams]
        self.names = [[n for p in st for n in p] for st in self.parts]

    def _part(self, ctx, code, maxlen):
        if code in ALIAS:
            return code, list(ALIAS[code])
        m = re.match(r'^([a-z_]+)(?:([.:])([A-Z0-9:]*))?$', code)
        assert m, code
        root, sep, arg = m.groups()
        if sep is None:
            return code, [code]

        def num(t):
            return self.vals[t] if t.isupper() else int(t)
        texts = [(num(t) if t else None) for t in arg.split(':')]
        shown = ':'.join('' if t is None else str(t) for t in texts)
        if sep == '.' and len(texts) == 1:
            name = '%s.%s' % (root, texts[0])
            return name, [name]
        full = '%s%s%s' % (root, sep, shown)
        if sep == ':' and len(texts) == 1:
            texts = [0] + texts
        start = texts[0] if texts[0] is not None else 0
        stop = texts[1]
        step = texts[2] if len(texts) > 2 and texts[2] is not None else 1
        ctx.assume(step >= 1)
        names = []
        # a slice names start, start+step, ... below stop
        ctx.assume(stop - start <= maxlen * step)
        ctx.assume(step <= 5)
        for k in range(maxlen):
            i = start + k * step
            if i >= stop:
                break
            names.append('%s.%s' % (root, i))
        return full, names


def expand(ctx, code, maxlen=24):
    """names that one code of an output text stands for (independent of the code under test)"""
    if code in ALIAS:
        return list(ALIAS[code])
    m = re.match(r'^([A-Za-z_* -][A-Za-z0-9_* -]*)[.:](.*)$', code)
    if not m or ':' not in code:
        return [code]
    root, arg = m.groups()
    args = arg.split(':')
    if len(args) == 1:
        args = ['0'] + args
    a = ctx.num(args[0]) if args[0] else 0
    b = ctx.num(args[1])
    s = ctx.num(args[2]) if len(args) > 2 else 1
    out = []
    i = a
    while i < b:
        out.append('%s.%s' % (root, i))
        i = i + s
        if len(out) > maxlen:
            raise AssertionError('longer than expected')
    return out


def expand_fused(ctx, text):
    return [n for code in text.split('|') if code for n in expand(ctx, code)]


def oset(seq):
    out = []
    for s in seq:
        if s not in out:
            out.append(s)
    return out


def same_name(ctx, a, b):
    if not isinstance(a, str) or not isinstance(b, str):
        return False
    if ('.' in a) != ('.' in b):
        return False
    if '.' not in a:
        return a == b
    ra, ia = a.rsplit('.', 1)
    rb, ib = b.rsplit('.', 1)
    if ra != rb or not ia.isdigit() or not ib.isdigit():
        return a == b
    return ctx.eq(ctx.num(ia), ctx.num(ib))


def same(ctx, xs, ys):
    """equal lists of names, as numbers and not as texts"""
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    return ctx.all([same_name(ctx, a, b) for a, b in zip(xs, ys)])


def same_streams(ctx, xs, ys):
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    return ctx.all([same(ctx, a, b) for a, b in zip(xs, ys)])


def split_text(text):
    """the streams of a normalized text"""
    return [[c for c in st.split('|') if c] for st in text.split(',')]
