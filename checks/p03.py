"""
For every chain the harness introduces one symbolic output pixel and one
symbolic leaf pixel.  If the original tree's output pixel depends on that leaf
pixel under bilinear sampling (the pixel lies within one sample of the
pre-image of the output pixel and every window of the original tree admits
it), then every window of the optimized tree must admit it too.  The solver
decides this for all output pixels and all leaf pixels at once.
"""
from checks import trees, configs
PROPERTY = 'P03'
EXPECT = ['source-kept']
BOUNDS = configs.BOUNDS
OUTSIDE = ('Kernels wider than bilinear (cubic, lanczos, antialiasing blur) may look further than one sample. '
           'Data that the original chain masked and the optimized chain reveals (fused warps) is not an error. '
           + configs.OUTSIDE)
OPTS = configs.OPTS
OPTS_THOROUGH = configs.OPTS_THOROUGH
BUDGET = configs.BUDGET
EPS = 1e-6


def admits(ctx, chan, pt, sample, slack):
    """conditions that leaf pixel `pt` reaches the output at leaf location
    `sample`: windows before the first warp apply to the pixel itself, windows
    after a warp to the sampled location"""
    conds = []
    warped = False
    for (T, x0, y0, x1, y1, kind) in chan.windows:
        if kind == 'warp':
            warped = True
        q = sample if warped else pt
        u, v = trees.fwd(T, *q)
        conds += [u >= x0 - slack, u <= x1 + slack, v >= y0 - slack, v <= y1 + slack]
    return conds


def harness(ctx, spec, mirror=False):
    b = trees.Builder(ctx, mirror=mirror)
    node = b.build(spec)
    W, H = node.dsize
    m0 = trees.meaning(node)
    opt = node.optimize()
    m1 = trees.meaning(opt)
    ctx.check('source-kept', len(m0) == len(m1))
    ox = ctx.int('ox', 0, 400)
    oy = ctx.int('oy', 0, 400)
    px = ctx.int('px', 0, b.hi)
    py = ctx.int('py', 0, b.hi)
    ctx.assume(ctx.all([ox < W, oy < H]))
    done = set()
    for c0, c1 in zip(m0, m1):
        if c0.nan:
            continue
        key = (id(c0.leaf), repr(c0.T), repr(c0.windows), repr(c1.T), repr(c1.windows))
        if key in done:
            continue
        done.add(key)
        lw, lh = c0.leaf.dsize
        s = trees.inv_point(c0.T, ox + 0.5, oy + 0.5)
        pt = (px + 0.5, py + 0.5)
        # how far one sample reaches, in leaf pixels
        k = 0
        for ev, n in pre_warp_overviews(c0):
            k = n
        reach = float(2 ** k)
        need = [px < lw, py < lh,
                s[0] - pt[0] < reach - EPS, pt[0] - s[0] < reach - EPS,
                s[1] - pt[1] < reach - EPS, pt[1] - s[1] < reach - EPS]
        need += admits(ctx, c0, pt, s, -EPS)
        need = ctx.all(need)
        for have in admits(ctx, c1, pt, s, EPS):
          ctx.check('source-kept', ctx.implies(need, have),
                  'output pixel (%s,%s) needs leaf pixel (%s,%s), but a window of the optimized tree excludes it: %s' % (
                      ox, oy, px, py, [w[1:] for w in c1.windows]) if not ctx.symbolic else '')


def pre_warp_overviews(chan):
    """overview levels applied before the first warp"""
    n = 0
    for T, x0, y0, x1, y1, kind in chan.windows:
        if kind == 'warp':
            break
        if kind == 'overview':
            n += 1
    out = []
    if n and chan.overview_steps:
        tot = 0
        for i, k in enumerate(chan.overview_steps):
            if i < n:
                tot += k
        out.append(('overview', tot))
    return out


def tasks(tier):
    return configs.both('harness', [s for s in configs.chains(tier) if 'N0' not in str(s)])
