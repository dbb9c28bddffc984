"""
The bounded cache of the file readers: histories of stores and lookups with keys
and a capacity that are solver variables.
"""
import ast
import inspect
import textwrap

from delayed_image import lazy_loaders
PROPERTY = 'P22'
EXPECT = ['bounded', 'lookup', 'missing', 'recent', 'order', 'independent']
BOUNDS = ('histories of up to 5 operations (thorough: 7), each a store, a lookup, a membership test, a removal, a store of several '
          'entries or get(); any integer keys, so every way in which keys coincide; capacity any number in [1,6]')
OUTSIDE = 'concurrent use; keys that are not integers'
STUBS = ['collections.OrderedDict: a list of pairs with solver terms as keys (the class body of CacheDict is taken from the current source and '
         'executed on top of it); replays use the real class']
OPTS = dict(time_s=30, max_paths=3000, query_ms=5000)
OPTS_THOROUGH = dict(time_s=300, max_paths=100000)
BUDGET = {'quick': 120, 'thorough': 1200}


class Ordered:
    """what CacheDict uses of an ordered dictionary"""

    def __init__(self, *args, **kw):
        self._rows = []
        Ordered.update(self, *args, **kw)

    def _find(self, key):
        for i, (k, v) in enumerate(self._rows):
            if k is key or bool(k == key):
                return i
        return None

    def __setitem__(self, key, value):
        i = self._find(key)
        if i is None:
            self._rows.append((key, value))
        else:
            self._rows[i] = (self._rows[i][0], value)

    def __getitem__(self, key):
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        return self._rows[i][1]

    def __delitem__(self, key):
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        del self._rows[i]

    def __contains__(self, key):
        return self._find(key) is not None

    def __len__(self):
        return len(self._rows)

    def __iter__(self):
        return iter([k for k, _ in self._rows])

    def __reversed__(self):
        return iter([k for k, _ in self._rows][::-1])

    def keys(self):
        return [k for k, _ in self._rows]

    def values(self):
        return [v for _, v in self._rows]

    def items(self):
        return list(self._rows)

    def move_to_end(self, key, last=True):
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        row = self._rows.pop(i)
        self._rows.insert(len(self._rows) if last else 0, row)

    def popitem(self, last=True):
        if not self._rows:
            raise KeyError('dictionary is empty')
        return self._rows.pop(-1 if last else 0)

    _missing = object()

    def pop(self, key, default=_missing):
        i = self._find(key)
        if i is not None:
            return self._rows.pop(i)[1]
        if default is Ordered._missing:
            raise KeyError(key)
        return default

    def get(self, key, default=None):
        i = self._find(key)
        return default if i is None else self._rows[i][1]

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i is None:
            self[key] = default
            return default
        return self._rows[i][1]

    def clear(self):
        self._rows.clear()

    def update(self, other=(), **kw):
        pairs = other.items() if hasattr(other, 'items') else other
        for k, v in pairs:
            self[k] = v
        for k, v in kw.items():
            self[k] = v


def cache_class(ctx):
    real = lazy_loaders.CacheDict
    if not ctx.symbolic:
        return real
    tree = ast.parse(textwrap.dedent(inspect.getsource(real)))
    names = dict(vars(lazy_loaders))
    for k, v in list(names.items()):
        if v is real.__mro__[1]:
            names[k] = Ordered
    names['OrderedDict'] = Ordered
    exec(compile(tree, inspect.getsourcefile(real), 'exec'), names)
    return names[real.__name__]


def history(ctx, ops):
    cls = cache_class(ctx)
    n = ctx.int('capacity', 1, 6)
    cache = cls(cache_len=n)
    other = cls(cache_len=1)
    other[-1] = 'x'
    model = []      # (key, value), least recently used first
    for step, op in enumerate(ops):
        key = ctx.int('k%d' % step, 0, 50)
        at = None
        for i, (k, v) in enumerate(model):
            if bool(k == key):
                at = i
                break
        if op == 's':
            cache[key] = step
            if at is not None:
                del model[at]
            model.append((key, step))
        elif op == 'u':
            second = ctx.int('k%db' % step, 0, 50)
            if not bool(second == key):
                cache.update([(key, step), (second, step + 100)])
                for k, v in ((key, step), (second, step + 100)):
                    model = [(a, b) for a, b in model if not bool(a == k)] + [(k, v)]
                    if bool(n < len(model)):
                        model.pop(0)
        elif op == 'l':
            try:
                got = cache[key]
            except KeyError:
                ctx.check('missing', at is None, lambda: 'key %s is not in the cache' % key)
            else:
                ctx.check('lookup', at is not None and got == model[at][1], lambda: 'key %s gives %s' % (key, got))
                model.append(model.pop(at))
        elif op == 'c':
            ctx.check('lookup', (key in cache) == (at is not None), lambda: 'membership of %s' % key)
        elif op == 'g':
            # get() answers; whether it counts as a use is not promised
            got = cache.get(key)
            ctx.check('lookup', got == (None if at is None else model[at][1]), lambda: 'get(%s) gives %s' % (key, got))
            if at is not None:
                return
        elif op == 'd':
            try:
                del cache[key]
            except KeyError:
                ctx.check('missing', at is None)
            else:
                ctx.check('missing', at is not None)
                del model[at]
        if bool(n < len(model)):
            model.pop(0)
        ctx.check('bounded', ctx.all([len(cache) <= n, len(cache) == len(model)]), lambda: '%s entries of at most %s' % (len(cache), n))
        items = list(cache.items())
        for k, v in model:
            ctx.check('recent', ctx.any([ctx.all([k == a, v == b]) for a, b in items]),
                      lambda: 'the recent entry %s is gone: %s' % ((k, v), items))
        ctx.check('order', ctx.all([x == y for a, b in zip(items, model) for x, y in zip(a, b)]), lambda: 'order %s instead of %s' % (items, model))
    ctx.check('independent', list(other.items()) == [(-1, 'x')], 'another cache changed')


def tasks(tier):
    import itertools
    out = []
    deep = 5 if tier == 'thorough' else 4
    for ops in itertools.product('sld', repeat=deep - 1):
        out.append(('history', dict(ops='s' + ''.join(ops))))
    out += [('history', dict(ops=o)) for o in ('ssssl', 'sslss', 'slsls', 'ssg', 'ssslc', 'us', 'usl', 'suls', 'uug', 'ssdssl', 'ssslsl')]
    if tier == 'thorough':
        out += [('history', dict(ops=o)) for o in ('sssssll', 'slslsls', 'sulsuls', 'ssdsslc', 'sssslss')]
    return out
