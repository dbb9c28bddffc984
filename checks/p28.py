"""
Printed trees: the kind and the inputs of every node are solver variables as in
P27; the graph of labels and the printed text are read back by an independent
reader and compared with the tree.
"""
import contextlib
import io
import kwimage
import numpy as np
import ubelt as ub
from checks import p27, trees
from checks.p27 import children
from vlib import sym, symimg
from delayed_image.delayed_leafs import DelayedLoad, DelayedNans
from delayed_image.delayed_nodes import DelayedChannelConcat
PROPERTY = 'P28'
EXPECT = ['graph', 'fields', 'transform', 'label', 'text', 'unchanged']
BOUNDS = ('trees of up to 4 nodes (thorough: 6) over file and no-data leaves; every node is a leaf, a warp, a crop, an overview, a '
          'dequantization, an empty channel selection or a concatenation of two or three earlier nodes, shared or not; warp offsets: every multiple of 1/4 in '
          '[-12,12], scales 1/2 and 2; image sides in [8,48]; both field sets, with and without labels, vertical chains or not')
OUTSIDE = 'coloring with the rich package; graphs that are not made from trees (cycles, several sources); number formatting (ubelt)'
OPTS = dict(time_s=40, max_paths=4000, query_ms=6000)
OPTS_THOROUGH = dict(time_s=400, max_paths=60000)
BUDGET = {'quick': 120, 'thorough': 1200}
HIDDEN = {'jagged', 'border_value', 'antialias', 'interpolation', 'noop_eps'}


STUBS = ['ubelt.urepr on symbolic values: the text of the term (in replays the real function)']


def text_of(value, **kw):
    """stands for ubelt.urepr: different terms have different texts"""
    if sym.is_sym(value):
        return '<%s>' % ' '.join(value.e.sexpr().split())
    if isinstance(value, dict):
        return '{%s}' % ','.join('%s=%s' % (k, text_of(v)) for k, v in value.items())
    if isinstance(value, (tuple, list)):
        return '(%s)' % ','.join(text_of(v) for v in value)
    if isinstance(value, slice):
        return '%s:%s' % (text_of(value.start), text_of(value.stop))
    return repr(value)


def node_of(ctx, node, kind, i, w, h):
    if kind == 'warp':
        tx = ctx.dyadic('tx%d' % i, -12, 12, 4)
        T = kwimage.Affine.coerce(np.array([[1.0, 0.0, tx], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]))
        return node.warp(T, dsize=(w, h), interpolation='nearest')
    if kind == 'scale':
        return node.scale(2.0).warp(kwimage.Affine.scale(0.5), dsize=(w, h))
    if kind == 'crop':
        return node.crop((slice(0, h), slice(0, w)), [0] if node.num_channels != 1 else None)
    if kind == 'none':
        # an empty channel selection is a parameter like any other
        return node.crop((slice(0, h), slice(0, w)), [])
    if kind == 'overview':
        return node.get_overview(1).resize((w, h))
    assert kind == 'quant'
    return node.dequantize(dict(p27.QUANT))


def preorder(node, depth=0):
    out = [(depth, node)]
    for c in children(node):
        out += preorder(c, depth + 1)
    return out


def read_text(lines):
    """
    An independent reader of the printed text: (depth, label) in printed order.
    """
    out = []
    cols = []           # column of the label of every printed node
    vertical = None
    for line in lines:
        body = line.lstrip(' │╎')
        start = len(line) - len(body)
        if body == '╽':
            vertical = start
            continue
        if vertical is not None:
            if start != vertical or body[:1] in '╙╟├└' or not out or cols[-1] != start:
                return None
            out.append((out[-1][0] + 1, body))
            cols.append(start)
            vertical = None
            continue
        mark = body[:4]
        if mark in ('╙── ', '╟── '):
            if start != 0:
                return None
            depth = 0
        elif mark in ('├─╼ ', '└─╼ '):
            above = [d for (d, _), c in zip(out, cols) if c == start]
            if not above:
                return None
            depth = above[-1] + 1
        else:
            return None
        out.append((depth, body[4:]))
        cols.append(start + 4)
    return out if vertical is None else None


def deep(ctx, **kw):
    with symimg.replaced(ub, 'urepr', text_of if ctx.symbolic else ub.urepr):
        printed(ctx, **kw)


def printed(ctx, kinds, n, fields='auto', with_labels=True, vertical=True, wide=False):
    w, h = ctx.int('w', 8, 48), ctx.int('h', 8, 48)
    nodes = [DelayedLoad('/nowhere/dir/a.tif', channels='a', dsize=(w, h), num_overviews=1)]
    for i in range(1, n):
        kind = ctx.choice('kind%d' % i, kinds)
        j = i - 1 if i == n - 1 else int(ctx.int('in%d' % i, 0, i - 1))
        if kind == 'leaf':
            nodes.append(DelayedNans(dsize=(w, h), channels='n%d|m' % i))
        elif kind == 'cat':
            k = int(ctx.int('with%d' % i, 0, i - 1))
            parts = [nodes[j], nodes[k]] + ([nodes[0]] if wide else [])
            nodes.append(DelayedChannelConcat(parts))
        else:
            nodes.append(node_of(ctx, nodes[j], kind, i, w, h))
    top = nodes[-1]
    every = {id(v): v for _, v in preorder(top)}
    before = [(v, type(v), dict(v.meta), children(v)) for v in every.values()]
    g = top.as_graph(fields=fields)
    want = preorder(top)
    # the nodes of the graph along the edges from its root
    roots = [v for v in g.nodes if g.in_degree(v) == 0]
    ctx.check('graph', len(roots) == 1 and len(g.nodes) == len(want) and len(g.edges) == len(want) - 1,
              lambda: '%d roots, %d nodes, %d edges for %d operations' % (len(roots), len(g.nodes), len(g.edges), len(want)))

    def walk(v, depth=0):
        out = [(depth, v)]
        for c in g.successors(v):
            out += walk(c, depth + 1)
        return out
    told = walk(roots[0])
    ctx.check('graph', len(told) == len(want) and all(a == c and g.nodes[v]['obj'] is o for (a, v), (c, o) in zip(told, want)),
              'operations of the graph differ')
    if len(told) != len(want):
        return
    for _, v in told:
        obj, meta, label = g.nodes[v]['obj'], g.nodes[v]['meta'], g.nodes[v]['label']
        expect = {k: m for k, m in obj.meta.items() if m is not None}
        if expect.get('channels') is not None:
            expect.pop('num_channels', None)
            expect['channels'] = obj.channels.spec
        if fields == 'auto':
            expect = {k: m for k, m in expect.items() if k not in HIDDEN}
        if 'fpath' in expect:
            expect.pop('fpath')
            expect['fname'] = 'a.tif'
        ctx.check('fields', set(meta) == set(expect), lambda: 'fields %s instead of %s' % (sorted(meta), sorted(expect)))
        for k in expect:
            if k == 'transform':
                T = kwimage.Affine.coerce(meta[k]) if meta[k] else kwimage.Affine.eye()
                ctx.check('transform', 'type' not in meta[k] and
                          ctx.all([ctx.close(a, c) for a, c in zip(trees.mat(T), trees.mat(obj.transform))]),
                          lambda: 'transform %s' % (meta[k],))
            else:
                ctx.check('fields', k in meta and (meta[k] is expect[k] or ctx.eq(meta[k], expect[k])), lambda: 'field %s' % k)
        short = type(obj).__name__[len('Delayed'):]
        ctx.check('label', label == short + ' ' + ub.urepr(meta, sort=0, compact=1, nl=0, precision=4), lambda: 'label %s' % label)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        top.print_graph(fields=fields, with_labels=with_labels, rich=False, vertical_chains=vertical)
    text = buf.getvalue()
    got = read_text(text.split('\n')[:-1])
    exp = [(d, g.nodes[v]['label'] if with_labels else v) for d, v in told]
    ctx.check('text', text.endswith('\n') and got == exp, lambda: 'printed %s instead of %s' % (got, exp))
    ok = all(type(v) is t and set(v.meta) == set(m) and all(v.meta[k] is m[k] for k in m) and len(children(v)) == len(ch)
             and all(a is c for a, c in zip(children(v), ch)) for v, t, m, ch in before)
    ctx.check('unchanged', ok and len(preorder(top)) == len(want), 'printing modified the tree')


def tasks(tier):
    out = []
    modes = [('auto', True, True), ('all', True, False), ('auto', False, True), ('auto', True, False)]
    for fields, labels, vertical in modes:
        kw = dict(fields=fields, with_labels=labels, vertical=vertical)
        for n in (1, 2, 3):
            out.append(('deep', dict(kinds=['warp', 'crop', 'quant', 'leaf', 'cat'], n=n, **kw)))
        out.append(('deep', dict(kinds=['scale', 'overview', 'cat'], n=3, wide=True, **kw)))
        out.append(('deep', dict(kinds=['crop', 'leaf', 'cat'], n=4, **kw)))
        out.append(('deep', dict(kinds=['warp', 'cat'], n=4, wide=True, **kw)))
        out.append(('deep', dict(kinds=['none', 'warp', 'cat'], n=3, **kw)))
        if tier == 'thorough':
            out.append(('deep', dict(kinds=['warp', 'cat'], n=5, **kw)))
            out.append(('deep', dict(kinds=['crop', 'leaf', 'cat'], n=5, **kw)))
            out.append(('deep', dict(kinds=['quant', 'cat'], n=6, **kw)))
    return out
