"""Generated objects for the node set, graph and heap checks.

A pool is described by JSON (list of [kind, seed]) and built by build_pool; the objects are only
ever compared by identity here."""


class Boom(Exception):
    pass


class Plain(object):
    __slots__ = ('n', '__weakref__')

    def __init__(self, n=0):
        self.n = n


class WithDict(object):
    def __init__(self, n=0):
        self.n = n


class AllEqual(object):
    """equal to everything, same hash"""

    def __init__(self, n=0):
        self.n = n

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 7


class NeverEqual(object):
    def __eq__(self, other):
        return False

    def __hash__(self):
        return 7


class Raising(object):
    """everything that a container could call raises"""

    def __eq__(self, other):
        raise Boom('eq')

    def __hash__(self):
        raise Boom('hash')

    def __bool__(self):
        raise Boom('bool')

    def __len__(self):
        raise Boom('len')

    def __iter__(self):
        raise Boom('iter')

    def __index__(self):
        raise Boom('index')

    def __repr__(self):
        return '<Raising>'


class Unhashable(list):
    __hash__ = None


KINDS = ['plain', 'dict', 'alleq', 'never', 'raise', 'list', 'emptylist', 'tuple', 'emptytuple', 'str', 'int', 'bigint', 'float', 'none', 'true',
         'type', 'func', 'set', 'frozenset', 'bytes', 'pydict', 'gen', 'unh', 'cls', 'meth', 'module']


def make(kind, n):
    import types
    if kind == 'plain':
        return Plain(n)
    if kind == 'dict':
        return WithDict(n)
    if kind == 'alleq':
        return AllEqual(n)
    if kind == 'never':
        return NeverEqual()
    if kind == 'raise':
        return Raising()
    if kind == 'list':
        return [n]
    if kind == 'emptylist':
        return []
    if kind == 'tuple':
        return (n, [])
    if kind == 'emptytuple':
        return ()
    if kind == 'str':
        return 'str%d' % n
    if kind == 'int':
        return n % 7 - 2
    if kind == 'bigint':
        return 10 ** 20 + n - n
    if kind == 'float':
        return float('1.5') * (n * 0 + 1)
    if kind == 'none':
        return None
    if kind == 'true':
        return n % 2 == 0
    if kind == 'type':
        return (int, object, type, Plain)[n % 4]
    if kind == 'func':
        return lambda: n
    if kind == 'set':
        return {n}
    if kind == 'frozenset':
        return frozenset([n, n + 1])
    if kind == 'bytes':
        return b'x' * (n % 50 + 2)
    if kind == 'pydict':
        return {n: n}
    if kind == 'gen':
        return (x for x in ())
    if kind == 'unh':
        return Unhashable()
    if kind == 'cls':
        return type('C%d' % n, (), {})
    if kind == 'meth':
        return Plain(n).__init__
    if kind == 'module':
        return types.ModuleType('m%d' % n)
    raise AssertionError(kind)


def gen_pool(r, lo, hi):
    n = r.randint(lo, hi)
    if r.chance(0.3):
        return [['plain', i] for i in range(n)]
    return [[r.choice(KINDS), r.randint(0, 9)] for i in range(n)]


def build_pool(desc):
    return [make(k, n) for k, n in desc]


class FailIter(object):
    """yields items, then raises"""

    def __init__(self, items, exc=Boom):
        self.items = list(items)
        self.exc = exc

    def __iter__(self):
        for x in self.items:
            yield x
        raise self.exc('end')


ITERS = ['list', 'tuple', 'iter', 'gen', 'dictvals', 'getitem', 'fail', 'noniter', 'list', 'gen']


class GetItem(object):
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


def make_iter(kind, items):
    """-> (iterable, fails)"""
    if kind == 'list':
        return list(items), False
    if kind == 'tuple':
        return tuple(items), False
    if kind == 'iter':
        return iter(list(items)), False
    if kind == 'gen':
        return (x for x in items), False
    if kind == 'dictvals':
        return dict(enumerate(items)).values(), False
    if kind == 'getitem':
        return GetItem(items), False
    if kind == 'fail':
        return FailIter(items), True
    if kind == 'noniter':
        return 12, True
    raise AssertionError(kind)
