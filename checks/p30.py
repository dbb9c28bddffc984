"""
The text drawing of graphs.  Which edges a graph has, where the drawing starts,
how deep it goes and which nodes are collapsed are solver variables; the drawn
lines are read back by an independent reader and by the library's own parser
and compared with the graph.
"""
import itertools
import warnings
import networkx as nx
PROPERTY = 'P30'
EXPECT = ['nodes', 'edges', 'parsed', 'hidden', 'forest', 'labels', 'unchanged', 'written']
BOUNDS = ('every directed graph of 3 nodes with loops and of 4 nodes without cycles, every undirected graph of 4 nodes; thorough: every '
          'directed graph of 4 nodes, every undirected graph of 5 nodes and of 4 with loops; any start nodes, depth limits in [1,5], one collapsed node, '
          'labels; both glyph sets, vertical chains or not')
OUTSIDE = 'labels that contain the drawing glyphs; multigraphs'
OPTS = dict(time_s=45, max_paths=6000, query_ms=6000)
OPTS_THOROUGH = dict(time_s=500, max_paths=100000)
BUDGET = {'quick': 120, 'thorough': 1500}
GLYPHS = {
    (True, False): (['├─╼ ', '└─╼ '], '╾', '╽'), (False, False): (['├── ', '└── '], '─', '│'),
    (True, True): (['|-> ', 'L-> '], '<-', '!'), (False, True): (['|-- ', 'L-- '], '-', '|'),
}
ROOTS = ['╟── ', '╙── ', '+-- ']


def util():
    from delayed_image.util import util_network_text
    return util_network_text


def graph_of(ctx, n, directed, shape):
    """a graph whose edges are solver variables; nodes are inserted in any order"""
    g = (nx.DiGraph if directed else nx.Graph)()
    g.add_nodes_from('abcdef'[:n])
    pairs = [(i, j) for i in range(n) for j in range(n)
             if (directed or i <= j) and (i != j or 'loops' in shape)]
    if 'dag' in shape:
        pairs = [(i, j) for i, j in pairs if i > j] if 'down' in shape else [(i, j) for i, j in pairs if i < j]
    for i, j in pairs:
        if ctx.flag('e%d%d' % (i, j)):
            g.add_edge('abcdef'[i], 'abcdef'[j])
    return g


def read(lines, directed, ascii_only):
    """nodes in the order of their lines, tree edges, back references and the
    nodes (None: the drawing itself) below which an ellipsis is drawn"""
    branch, back, vertical = GLYPHS[directed, ascii_only]
    nodes, tree, refs, dots = [], [], [], []
    stack = []          # (column of the label, node)
    below = None
    for line in lines:
        if line.strip() in ('╙', '+'):
            assert len(lines) == 1
            return nodes, tree, refs, dots
        if line.strip(' ') == '' or set(line) <= set(' │╎|!╽:╏╷'):
            # only connections to what is further down
            assert line.rstrip().endswith(vertical)
            col = len(line.rstrip()) - len(vertical)
            assert stack and stack[-1][0] == col, line
            below = stack[-1][1]
            continue
        text, parents = line, []
        if ' %s ' % back in line:
            text, rest = line.split(' %s ' % back)
            parents = rest.split(', ')
        label = text.split(' ')[-1]
        col = len(text) - len(label) - (1 if label == '...' else 0)
        if below is not None:
            parent, below = below, None
        elif text[:4] in ROOTS and col == 4:
            parent = None
        else:
            assert text[col - 4:col] in branch, line
            while stack and stack[-1][0] != col - 4:
                stack.pop()
            parent = stack[-1][1]
        if label == '...':
            dots.append(parent)
            continue
        if parent is None:
            stack = []
        nodes.append(label)
        if parent is not None:
            tree.append((parent, label))
        refs += [(p, label) for p in parents]
        stack.append((col, label))
    return nodes, tree, refs, dots


def key(edges, directed):
    return sorted(tuple(e) if directed else tuple(sorted(e)) for e in edges)


def reach(g, start):
    seen, todo = set(), list(start)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += list(g[x])
    return seen


def whole(ctx, n, directed, shape='', ascii_only=False, chains=False, start=False):
    """nothing is hidden"""
    T = util()
    g = graph_of(ctx, n, directed, shape)
    before = (list(g.nodes(data=True)), list(g.edges(data=True)))
    sources = None
    seen = set(g.nodes)
    if start:
        sources = [ctx.choice('s%d' % i, list(g.nodes)) for i in range(1 if start == 1 else 2)]
        if len(set(sources)) < len(sources):
            return
        seen = reach(g, sources)
    lines = list(T.generate_network_text(g, sources=sources, ascii_only=ascii_only, vertical_chains=chains))
    nodes, tree, refs, dots = read(lines, directed, ascii_only)
    ctx.check('nodes', sorted(nodes) == sorted(seen), lambda: 'nodes %s of %s with edges %s' % (nodes, sorted(seen), list(g.edges)))
    want = key([e for e in g.edges if e[0] in seen], directed)
    drawn = key(tree + refs, directed)
    if start and directed:
        # parents that cannot be reached are references
        want = key([e for e in g.edges if e[1] in seen], directed)
    ctx.check('edges', drawn == want, lambda: 'edges %s instead of %s:\n%s' % (drawn, want, '\n'.join(lines)))
    ctx.check('edges', key(tree, directed) == sorted(set(key(tree, directed))) and len(set(b for a, b in tree)) == len(tree))
    # an ellipsis below a node tells that it has neighbours that are drawn elsewhere
    parent = {b: a for a, b in tree}
    for i, x in enumerate(nodes):
        other = [y for y in g[x] if parent.get(y) != x and (directed or y not in nodes[:i + 1])]
        ctx.check('hidden', (x in dots) == bool(other), lambda: 'ellipsis below %s: %s, drawn elsewhere: %s\n%s' % (x, x in dots, other, '\n'.join(lines)))
    if not start:
        h = T.parse_network_text(iter(lines))
        ctx.check('parsed', set(h.nodes) == set(g.nodes) and (h.is_directed() == directed or not any(a != b or directed for a, b in g.edges)),
                  lambda: 'parsed %s %s' % (h.is_directed(), list(h.nodes)))
        ctx.check('parsed', key(h.edges, directed) == key(g.edges, directed), lambda: 'parsed %s of %s' % (list(h.edges), list(g.edges)))
    else:
        # every tree of the drawing starts at a requested node
        tops = [x for x in nodes if x not in [b for a, b in tree]]
        ctx.check('nodes', tops == [s for s in sources if s in tops] and tops[0] == sources[0])
    ctx.check('unchanged', before == (list(g.nodes(data=True)), list(g.edges(data=True))))


def cut(ctx, n, directed, shape='', what='depth', ascii_only=False, chains=False):
    """a depth limit or a collapsed node hides what is below, and shows that
    something is hidden"""
    T = util()
    g = graph_of(ctx, n, directed, shape)
    source = ctx.choice('s', list(g.nodes))
    kw = {}
    closed = None
    if what == 'depth':
        d = ctx.int('depth', 1, 5)
        kw['max_depth'] = d
    else:
        closed = ctx.choice('closed', list(g.nodes))
        g.nodes[closed]['collapse'] = True
    lines = list(T.generate_network_text(g, sources=[source], ascii_only=ascii_only, vertical_chains=chains, **kw))
    nodes, tree, refs, dots = read(lines, directed, ascii_only)
    parent = {b: a for a, b in tree}
    ctx.check('nodes', len(set(nodes)) == len(nodes) and nodes[0] == source and set(nodes) <= reach(g, [source]),
              lambda: 'nodes %s of %s' % (nodes, sorted(reach(g, [source]))))
    ctx.check('edges', len(parent) == len(tree) == len(nodes) - 1 and all(g.has_edge(a, b) for a, b in tree + refs),
              lambda: 'tree %s references %s' % (tree, refs))

    def depth(x):
        return 1 + (depth(parent[x]) if x in parent else 0)
    for x in nodes:
        # chains of single children are drawn without going deeper
        if what == 'depth' and not chains:
            ctx.check('hidden', depth(x) <= d, lambda: '%s is drawn at depth %s of %s' % (x, depth(x), d))
        end = x == closed if what != 'depth' else depth(x) == d
        if what == 'depth' and chains:
            continue
        if end:
            ctx.check('hidden', x not in parent.values(), lambda: 'there are nodes below %s' % x)
            more = list(g[x]) if directed else [y for y in g[x] if y not in nodes[:nodes.index(x) + 1]]
            ctx.check('hidden', (x in dots) == bool(more), lambda: 'ellipsis below %s: %s, hidden %s' % (x, x in dots, more))
        else:
            # everything next to a node that is not cut is drawn somewhere
            ctx.check('hidden', set(g[x]) <= set(nodes), lambda: 'neighbours %s of %s, drawn %s' % (list(g[x]), x, nodes))


def forest(ctx, n, directed, ascii_only=False):
    """the text of a forest is the drawing; other graphs are refused"""
    T = util()
    g = graph_of(ctx, n, directed, '')
    und = nx.Graph(g.edges)
    und.add_nodes_from(g.nodes)
    parts = nx.number_connected_components(und)
    is_forest = len(g.edges) == n - parts
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if not is_forest:
            ctx.check('forest', ctx.raises(lambda: T.forest_str(g, ascii_only=ascii_only), nx.NetworkXNotImplemented))
            return
        text = T.forest_str(g, ascii_only=ascii_only)
        out = []
        none = T.forest_str(g, ascii_only=ascii_only, write=out.append)
    nodes, tree, refs, dots = read(text.split('\n'), directed, ascii_only)
    ctx.check('forest', sorted(nodes) == sorted(g.nodes) and key(tree + refs, directed) == key(g.edges, directed))
    if not directed or all(k <= 1 for _, k in g.in_degree):
        ctx.check('forest', not refs and not dots)
    ctx.check('forest', none is None and out == text.split('\n'))


def labels(ctx, n, directed, how):
    """labels replace the nodes where they exist"""
    T = util()
    g = graph_of(ctx, n, directed, 'dag')
    names = {}
    for i, x in enumerate(g.nodes):
        if ctx.flag('l%d' % i):
            names[x] = 'name%d' % i
            g.nodes[x]['title' if how == 'title' else 'label'] = names[x]
    kw = {} if how == 'default' else {'with_labels': {'yes': True, 'no': False, 'title': 'title'}[how]}
    lines = list(T.generate_network_text(g, **kw))
    nodes, tree, refs, dots = read(lines, directed, False)
    show = (lambda x: x) if how == 'no' else (lambda x: names.get(x, x))
    ctx.check('labels', sorted(nodes) == sorted(show(x) for x in g.nodes), lambda: '%s' % nodes)
    want = key([(show(a), show(b)) for a, b in g.edges], directed)
    ctx.check('labels', key(tree + refs, directed) == want, lambda: '%s of %s' % (tree + refs, want))
    out = []
    end = ctx.choice('end', ['', '\n', ';'])
    T.write_network_text(g, path=out.append, end=end, **kw)
    ctx.check('written', out == [line + end for line in lines])


def tasks(tier):
    out = []
    for a, c in itertools.product((False, True), (False, True)):
        kw = dict(ascii_only=a, chains=c)
        out += [('whole', dict(n=3, directed=True, shape='loops', **kw)), ('whole', dict(n=4, directed=False, **kw)),
                ('whole', dict(n=4, directed=True, shape='dag', **kw)), ('whole', dict(n=4, directed=True, shape='dag down', **kw))]
        if tier == 'thorough':
            out += [('whole', dict(n=4, directed=True, **kw)), ('whole', dict(n=5, directed=False, **kw)),
                    ('whole', dict(n=4, directed=False, shape='loops', **kw))]
    for d in (False, True):
        out += [('whole', dict(n=3, directed=d, start=1)), ('whole', dict(n=3, directed=d, start=2, chains=True)),
                ('cut', dict(n=3, directed=d, shape='loops')), ('cut', dict(n=4, directed=d, shape='dag' if d else '')),
                ('cut', dict(n=3, directed=d, what='closed')), ('cut', dict(n=4, directed=d, shape='dag' if d else '', what='closed', chains=True)),
                ('cut', dict(n=3, directed=d, chains=True, ascii_only=True)),
                ('forest', dict(n=3, directed=d)), ('forest', dict(n=4 if not d else 3, directed=d, ascii_only=True))]
        out += [('labels', dict(n=3, directed=d, how=h)) for h in ('default', 'yes', 'no', 'title')]
        if tier == 'thorough':
            out += [('cut', dict(n=4, directed=d)), ('cut', dict(n=4, directed=d, what='closed')), ('forest', dict(n=4, directed=d)),
                    ('whole', dict(n=4, directed=d, start=2))]
    return out
