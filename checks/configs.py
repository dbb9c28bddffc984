"""Operation chains explored by the optimizer checks."""
from checks.trees import W

OPTS = dict(time_s=20, max_paths=400, query_ms=6000)
OPTS_THOROUGH = dict(time_s=240, max_paths=6000, query_ms=20000)
BUDGET = {"quick": 75, "thorough": 3000}

OUTSIDE = (
    'Chains outside the listed shapes and lengths; linear parts of warps outside the table of checks/trees.py '
    '(17 matrices: identity, isotropic and anisotropic up/down-scaling, flips, 90 degree and 3-4-5 rotations, shear); '
    'image sides, offsets and windows outside the stated ranges; floating point round-off (numbers are exact '
    'rationals in the encoding, compared with a tolerance of 1e-6; every counterexample and one model per '
    'configuration is replayed in floating point); the interpolation arithmetic of the resampling library.')

_B = ('Every chain in checks/configs.py (%s); image sides in [2,48] (symbolic integers), crop windows any non-empty '
      'in-range integer window, warp offsets any multiple of 1/4 in [-12,12], explicit output sizes in [1,48], '
      'stored overviews 0..3; linear parts from the table in checks/trees.py; at most %s paths and %s s per chain '
      '(chains that hit a limit are listed under incomplete).')
BOUNDS = {'quick': _B % ('singles, pairs and selected longer chains', 400, 20),
          'thorough': _B % ('all pairs over the full operator set, selected triples and longer chains', 6000, 240)}

OPS = ['C', W('id'), W('up15'), W('dn2'), W('dn3', 'sym'), 'O1', 'Q']


def singles():
    L = 'L0v'
    return [[L, a] for a in OPS + [W('rot'), W('flip'), W('mix', 'sym'), W('dn4'), W('dn8'), W('dnx'), 'O2']]


def pairs(ops, leaf='L0v'):
    return [[leaf, a, b] for a in ops for b in ops if not (a == 'Q' and b == 'Q')]


LONG = [
    # crop through rotated / sheared / flipped warps
    ['L0', W('rot', 'sym'), 'C'],
    ['L0', W('flip', 'sym'), 'C'],
    ['L0', W('shear', 'sym'), 'C'],
    ['L0', W('rotup', 'sym'), 'C'],
    ['L0o2', W('rotdn'), 'C'],
    # overview absorbed by an upsampling warp, with and without nodes between
    ['L0o2', 'O1', W('up2')],
    ['L0o2', 'O1', 'Q', W('up2')],
    ['L0o2', 'O1', 'C', W('up2', 'sym')],
    ['L0o2', 'Q', 'O1', 'C', W('up2', 'sym')],
    ['L0o2', 'O2', 'C', W('rotup', 'sym')],
    # overview over warp / crop
    ['L0o2', W('up2'), 'O1'],
    ['L0o2', W('rot', 'sym'), 'O1'],
    ['L0o2', 'C', 'O2'],
    ['L0o2', 'C', W('up15'), 'O1'],
    # warp split into an overview
    ['L0v', W('dn8', 'sym')],
    ['L0o2', 'C', W('dnx', 'sym')],
    ['L0o2', 'Q', W('dn4'), 'C'],
    ['L0o2', 'C', W('dn4', 'sym', 'd0'), 'C'],
    ['L0', 'O1', 'O1'],
    ['L0u', 'O1', W('dn4')],
    ['L0u', 'C', 'O1', W('dn4', 'sym'), 'C'],
    ['L0u', W('dn4'), 'O1'],
    # more levels requested than stored, then less resolution still
    ['L0', 'O2', 'C', W('dn2', 'sym')],
    ['L0o1', 'O2', 'Q', W('dn4', 'sym')],
    ['L0', 'O2', 'C#2,0', W('dn2', 'sym')],
    [['cat', ['L0=', 'C', 'O2', W('up2', 'com')], ['L1=']], W('dn2', 'sym')],
    [['cat', ['L0=', 'O1', 'C', W('dn2', 'com')], ['L1', W('dn2', 'com')]], 'C', W('dn2', 'sym')],
    ['L0', 'C', 'C', 'C'],
    ['L0', W('up15'), W('dn2'), 'C'],
    # dequantize everywhere
    ['L0', W('up2'), 'C', 'Q'],
    ['L0', 'C', 'O1', 'Q'],
]

CAT = [
    # no spatial op / windows / warps over a concat
    [['cat', ['L0='], ['L1=']], 'C'],
    [['cat', ['L0='], ['L1=']], W('up15')],
    [['cat', ['L0='], ['L1=']], 'O1'],
    [['cat', ['L0='], ['L1=']], 'Q'],
    [['cat', ['L0='], ['L1=']], 'C#3,0'],
    [['cat', ['L0='], ['L1=']], 'K#1,3,4'],
    [['cat', ['L0='], ['L1=']], 'K d|a|c'],
    [['cat', ['L0='], ['L1', W('up2', 'com')]], 'C'],
    [['cat', ['L0='], ['L1', W('dn2', 'com')]], 'C#4,1,0'],
    [['cat', ['L0=', 'Q'], ['L1', W('up15', 'com')]], W('dn2')],
    [['cat', ['L0='], ['cat', ['L1='], ['L2=']]], 'K#5,3,2'],
    [['cat', ['L0='], ['L1=']], 'C', 'K#3,1'],
    [['cat', ['L0='], ['L1=']], W('id', 'sym'), 'K#2,4', 'C'],
    [['cat', ['N0='], ['L1=']], 'C'],
    [['cat', ['N0='], ['L1=']], W('up15', 'sym'), 'K#3,1'],
]

CHAN = [
    ['L0', 'C#2,0'],
    ['L0', 'K#2,0,1', 'C#1,0'],
    ['L0', 'C#2,0,1', 'C#1,0'],
    ['L0', W('up15', 'sym'), 'C#2,0'],
    ['L0', 'K#2,1', W('dn2', 'sym'), 'K#1'],
    ['L0o2', 'C#2,0', 'O1'],
    ['L0o2', 'O1', 'C#2,0', W('up2', 'sym')],
    ['L0', 'C#1,2', 'Q', 'K#1'],
    # no channel at all
    ['L0', 'C', 'C#'],
    ['L0', 'C#', 'C'],
    ['L0', 'K#', 'Q'],
    ['L0', W('up15', 'sym'), 'C#'],
    ['L0o2', 'O1', 'K#'],
    ['L0o2', 'C#', 'O1'],
    ['N0', 'K#', 'C'],
    [['cat', ['L0='], ['L1=']], 'K#'],
    [['cat', ['L0='], ['L1=']], 'C#'],
    [['cat', ['L0='], ['N1=']], 'C', 'K#'],
    [['cat', ['L0='], ['L1=']], 'K#', 'C'],
    [['cat', ['L0o2=', 'O1'], ['L1o2=', 'O1']], 'K#', 'C'],
    ['N0', 'C#1,2'],
    ['N0', 'C', W('up15', 'sym')],
    ['N0', W('dn2', 'sym'), 'C'],
]

# windows that may be empty
EMPTY = [
    ['L0', 'C0'],
    ['L0', 'C0', 'C0'],
    ['L0', 'C0', 'Q'],
    ['L0', 'C0', 'O1'],
    ['L0o2', 'O1', 'C0'],
    ['L0', W('up2', 'sym'), 'C0'],
    ['L0', W('rot', 'sym'), 'C0'],
    ['L0', 'C0', W('up2', 'sym')],
    ['L0o2', 'C0', W('dn4', 'sym')],
    ['L0o2', 'O1', 'C0', W('up2', 'sym')],
    [['cat', ['L0='], ['L1=']], 'C0'],
]


def dedup(seq):
    seen = set()
    out = []
    for s in seq:
        k = repr(s)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def deep():
    """additional chains of the thorough tier"""
    ops = OPS + [W('up2'), W('dn4'), W('dnx', 'sym'), W('mix'), W('rot', 'sym'), W('flip', 'sym'), 'O2']
    out = pairs(ops) + pairs(ops, 'L0')
    small = ['C', W('up2', 'sym'), W('dn4', 'sym'), 'O1', 'Q']
    for a in small:
        for b in small:
            for c in small:
                if [a, b, c].count('Q') <= 1:
                    out.append(['L0o2', a, b, c])
    for spec in CAT:
        for op in ['C', W('up15'), W('dn4', 'sym'), 'O1']:
            out.append(spec + [op])
    return out


def chains(tier):
    out = LONG + CAT + CHAN + EMPTY + singles() + pairs(OPS)
    if tier == 'thorough':
        out = out + deep()
    return dedup(out)


def is_long(s):
    return len(s) > 3 or (len(s) > 2 and not isinstance(s[0], str)) or 'rot' in str(s) or 'shear' in str(s)


def both(harness, specs):
    """short chains with independent x and y; longer ones first with the same
    symbols on both axes (few paths, explored to the end), then independently"""
    out = [(harness, {'spec': s, 'mirror': True}) for s in specs if is_long(s)]
    out += [(harness, {'spec': s}) for s in specs if not is_long(s)]
    out += [(harness, {'spec': s}) for s in specs if is_long(s)]
    return out
