"""
Walking trees: the kind and the inputs of every node are solver variables (so all
small trees, with nodes that are used several times, are built) and every walk is
compared with the plain recursive definition of the paths of the tree.
"""
import kwimage
import numpy as np
from checks import trees
from delayed_image.delayed_leafs import DelayedLoad, DelayedNans
from delayed_image.delayed_nodes import DelayedChannelConcat
PROPERTY = 'P27'
EXPECT = ['traverse', 'leafs', 'paths', 'path-transform', 'graph', 'nesting', 'unchanged', 'nested-params']
BOUNDS = ('trees of up to 5 nodes (thorough: 6) over up to two leaves; every node is a leaf, a warp, a crop, an overview, a dequantization or '
          'a concatenation of any two earlier nodes, shared or not; warp offsets: every multiple of 1/4 in [-12,12]; image sides in [8,48]')
OUTSIDE = 'printed trees (P28); concatenations of more than two parts'
OPTS = dict(time_s=40, max_paths=4000, query_ms=6000)
OPTS_THOROUGH = dict(time_s=400, max_paths=60000)
BUDGET = {'quick': 120, 'thorough': 1200}
QUANT = dict(trees.QUANT)


def size_kept(ctx, node, kind, i, w, h):
    """a node of the same size over another"""
    if kind == 'warp':
        tx = ctx.dyadic('tx%d' % i, -12, 12, 4)
        T = kwimage.Affine.coerce(np.array([[1.0, 0.0, tx], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]))
        return node.warp(T, dsize=(w, h), interpolation='nearest')
    if kind == 'crop':
        return node.crop((slice(0, h), slice(0, w)))
    assert kind == 'quant'
    return node.dequantize(dict(QUANT))


def children(node):
    """the definition"""
    if isinstance(node, DelayedChannelConcat):
        return list(node.parts)
    sub = node.subdata
    return [] if sub is None else [sub]


def paths(node):
    """every path from the node down to a leaf"""
    ch = children(node)
    if not ch:
        return [[node]]
    return [[node] + p for c in ch for p in paths(c)]


def edges(node, parent=None):
    out = [(parent, node)]
    for c in children(node):
        out += edges(c, node)
    return out


def bag(items):
    return sorted(tuple(id(v) for v in t) for t in items)


def nested(node):
    return (type(node).__name__, [nested(c) for c in children(node)])


def told(item):
    return (item['type'], [told(c) for c in item.get('children', [])])


def deep(ctx, kinds, ask, n):
    w, h = ctx.int('w', 8, 48), ctx.int('h', 8, 48)
    nodes = [DelayedLoad('/nowhere/a.tif', channels='a', dsize=(w, h), num_overviews=1,
                         nodata_method=ctx.choice('was', ['float', None]) if ask == 'params' else None)]
    for i in range(1, n):
        kind = ctx.choice('kind%d' % i, kinds)
        last = i == n - 1
        # the newest node is always used, so that the top reaches many nodes
        j = i - 1 if last else ctx.int('in%d' % i, 0, i - 1)
        j = int(j)
        if kind == 'leaf':
            nodes.append(DelayedNans(dsize=(w, h), channels='n%d' % i))
        elif kind == 'cat':
            k = int(ctx.int('with%d' % i, 0, i - 1))
            nodes.append(DelayedChannelConcat([nodes[j], nodes[k]]))
        else:
            nodes.append(size_kept(ctx, nodes[j], kind, i, w, h))
    top = nodes[-1]
    before = [(type(v), dict(v.meta), children(v)) for v in nodes]
    if ask == 'walk':
        ctx.check('traverse', bag(top._traverse()) == bag(edges(top)), 'nodes and parents differ')
        ctx.check('leafs', bag((v,) for v in top.leafs()) == bag((p[-1],) for p in paths(top)), 'leafs differ')
        g = top._traversed_graph()
        ctx.check('graph', len(g.nodes) == len(edges(top)) and len(g.edges) == len(edges(top)) - 1,
                  lambda: '%d nodes, %d edges' % (len(g.nodes), len(g.edges)))
        got = [(None, g.nodes[v]['obj']) for v in g.nodes if not list(g.predecessors(v))]
        got += [(g.nodes[a]['obj'], g.nodes[c]['obj']) for a, c in g.edges]
        ctx.check('graph', bag(got) == bag(edges(top)), 'graph edges differ')
        for v in g.nodes:
            o = g.nodes[v]['obj']
            ctx.check('graph', g.nodes[v]['type'] == type(o).__name__ and
                      set(g.nodes[v]['meta']) == {k for k, m in o.meta.items() if m is not None})
        # children of a node in their order
        root = [v for v in g.nodes if not list(g.predecessors(v))][0]
        ctx.check('graph', [id(g.nodes[v]['obj']) for v in g.successors(root)] == [id(c) for c in children(top)], 'order of the parts')
    elif ask == 'nesting':
        ctx.check('nesting', told(top.nesting()) == nested(top), lambda: 'nesting %s' % (told(top.nesting()),))
    elif ask == 'paths':
        want = paths(top)
        got = list(top._leaf_paths())
        ctx.check('paths', len(got) == len(want), lambda: '%d paths instead of %d' % (len(got), len(want)))
        ctx.check('paths', bag((leaf,) for leaf, _ in got) == bag((p[-1],) for p in want), 'leafs of the paths differ')
        # in any order: the parts are the operations of the paths without the concatenations
        rest = list(got)
        for p in want:
            chain = [v for v in p if not isinstance(v, DelayedChannelConcat)]
            hit = None
            for i, (leaf, part) in enumerate(rest):
                line = [part]
                while children(line[-1]):
                    line += children(line[-1])[:1]
                if leaf is p[-1] and line[-1] is leaf and len(line) == len(chain) and \
                        all(type(a) is type(c) and all(a.meta[k] is c.meta[k] for k in c.meta) for a, c in zip(line, chain)):
                    hit = i
                    break
            ctx.check('paths', hit is not None, 'a path is missing')
            if hit is None:
                return
            _, part = rest.pop(hit)
            T = trees.EYE
            for v in chain[::-1]:
                if 'transform' in v.meta:
                    T = trees.compose(trees.mat(v.meta['transform']), T)
            got_T = trees.mat(part.get_transform_from_leaf())
            ctx.check('path-transform', ctx.all([ctx.close(a, c) for a, c in zip(got_T, T)]), lambda: 'transform %s instead of %s' % (got_T, T))
    else:
        assert ask == 'params'
        # also values that are not true, over options that are set or not
        inter = ctx.choice('interpolation', ['cubic', ''])
        missing = ctx.choice('missing', ['ma', None, False])
        top._set_nested_params(interpolation=inter, nodata_method=missing, unknown=3)
        seen = {id(v) for _, v in edges(top)}
        for v, (t, meta, ch) in zip(nodes, before):
            want = dict(meta)
            if id(v) in seen:
                if 'interpolation' in want:
                    want['interpolation'] = inter
                if 'nodata_method' in want:
                    want['nodata_method'] = missing
            ctx.check('nested-params', set(v.meta) == set(want) and all(v.meta[k] is want[k] or v.meta[k] == want[k] for k in ('interpolation', 'nodata_method') if k in want)
                      and all(v.meta[k] is want[k] for k in want if k not in ('interpolation', 'nodata_method')),
                      lambda: 'parameters %s instead of %s' % (v.meta, want))
        return
    ok = all(type(v) is t and set(v.meta) == set(m) and all(v.meta[k] is m[k] for k in m) and len(children(v)) == len(ch)
             and all(a is c for a, c in zip(children(v), ch)) for v, (t, m, ch) in zip(nodes, before))
    ctx.check('unchanged', ok, 'walking modified the tree')


def tasks(tier):
    out = []
    for ask in ('walk', 'nesting', 'paths', 'params'):
        for n in (1, 2, 3):
            out.append(('deep', dict(kinds=['warp', 'crop', 'quant', 'leaf', 'cat'], ask=ask, n=n)))
        out.append(('deep', dict(kinds=['warp', 'cat'], ask=ask, n=4)))
        out.append(('deep', dict(kinds=['warp', 'leaf', 'cat'], ask=ask, n=4)))
        out.append(('deep', dict(kinds=['crop', 'quant', 'cat'], ask=ask, n=4)))
        if ask != 'nesting' or tier == 'thorough':
            out.append(('deep', dict(kinds=['warp', 'cat'], ask=ask, n=5)))
        if tier == 'thorough':
            out.append(('deep', dict(kinds=['warp', 'leaf', 'cat'], ask=ask, n=5)))
            out.append(('deep', dict(kinds=['warp', 'cat'], ask=ask, n=6)))
    return out
