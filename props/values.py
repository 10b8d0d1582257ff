"""Data objects with many sizes and fill states, described by [kind, n, m] (JSON)."""
import array
import collections
import re
import types
import weakref
from guppy.sets import immbitset, mutbitset, immnodeset, mutnodeset
from guppy.heapy.heapyc import NodeGraph


class UserSize(object):
    def __init__(self, n):
        self.n = n

    def __sizeof__(self):
        return self.n


class UserSizeSlots(object):
    __slots__ = 'n'

    def __init__(self, n):
        self.n = n

    def __sizeof__(self):
        return self.n


class UserSizeSub(UserSize):
    """inherits the method"""


class UserSizeDict(dict):
    __slots__ = 'n'

    def __sizeof__(self):
        return dict.__sizeof__(self) + getattr(self, 'n', 0)


class UserSizeInt(int):
    def __sizeof__(self):
        return 100 + int(self) % 1000


class NoSize(object):
    """__sizeof__ is not a method"""
    __sizeof__ = None


class NoSizeT(tuple):
    __sizeof__ = None


class NoSizeB(bytes):
    def __sizeof__(self):
        raise TypeError('no size')


class NoSizeS(object):
    __slots__ = ('a', 'b', 'c')

    def __sizeof__(self):
        return 'x'


NOSIZE = (NoSize, NoSizeT, NoSizeB, NoSizeS)


class Attrs(object):
    pass


class IntSub(int):
    pass


class StrSub(str):
    pass


class BytesSub(bytes):
    pass


class TupleSub(tuple):
    pass


class ListSub(list):
    pass


class ListSlots(list):
    __slots__ = 'a', 'b'


class SetSub(set):
    pass


class NTup(tuple):
    __slots__ = ()


class Slots1(object):
    __slots__ = 'a',


class Slots5(Slots1):
    __slots__ = tuple('bcdef')


class SlotsDict(Slots5):
    __slots__ = '__dict__', '__weakref__'


class ImmSub(immnodeset):
    pass


class MutSub(mutnodeset):
    pass


class GraphSub(NodeGraph):
    pass


class FloatSub(float):
    __slots__ = ()


for c in list(globals().values()):
    if isinstance(c, type) and c.__module__ == __name__:
        c.__module__ = 'gv'

CONST = [None, True, False, Ellipsis, NotImplemented, (), '', b'', 0, 1, int, object]


def rng(n, m):
    import random
    return random.Random(n * 1000 + m)


def hist(o, add, remove, n, m):
    r = rng(n, m)
    live = []
    for k in range(n * 2):
        if live and r.random() < (0.2, 0.4, 0.6, 0.48)[m % 4]:
            i = r.randrange(len(live))
            remove(o, live.pop(i))
        else:
            add(o, k)
            live.append(k)
    return o


KINDS = ['int', 'negint', 'const', 'float', 'complex', 'ascii', 'latin', 'ucs2', 'ucs4', 'utf8', 'bytes', 'bytearray', 'list', 'listcut', 'dict', 'dictstr', 'split', 'set', 'frozenset',
         'deque', 'array', 'memview', 'tuple', 'range', 'usize', 'usizeslots', 'usizesub', 'usizedict', 'usizeint', 'nosize', 'intsub', 'strsub', 'bytessub', 'tuplesub', 'listsub',
         'listslots', 'setsub', 'ntup', 'attrs', 'slots1', 'slots5', 'slotsdict', 'type', 'func', 'lambda', 'wref', 'exc', 'ns', 'pattern', 'code', 'imm', 'mutn', 'ng', 'bs', 'mbs', 'cpl',
         'immsub', 'mutsub', 'ngsub', 'floatsub', 'odict', 'counter', 'gen', 'bmeth', 'prop', 'module', 'chmap']
OWN = {'mutn', 'ng', 'mbs', 'mutsub', 'ngsub'}
POOL = [object() for _ in range(400)]


def make(spec):
    k, n, m = spec
    if k == 'int':
        return (1 << n) + m
    if k == 'negint':
        return -(1 << n) - m
    if k == 'const':
        return CONST[n % len(CONST)]
    if k == 'float':
        return n + m / 7.0
    if k == 'floatsub':
        return FloatSub(n)
    if k == 'complex':
        return complex(n, m)
    if k == 'ascii':
        return 'a' * n + str(m)
    if k == 'latin':
        return 'a' * n + '\xe9'
    if k == 'ucs2':
        return 'a' * n + '\u1234'
    if k == 'ucs4':
        return 'a' * n + '\U00012345'
    if k == 'utf8':
        s = 'a' * n + '\xe9' + str(m)
        class_name_cache(s)
        return s
    if k == 'bytes':
        return b'x' * n + b'%d' % m
    if k == 'bytearray':
        o = bytearray(n)
        for i in range(m * 7):
            o.append(i)
        if m % 3 == 1:
            del o[:n // 2]
        return o
    if k == 'list':
        return hist([], list.append, list.remove, n, m)
    if k == 'listcut':
        o = list(range(n))
        del o[n // (m + 1):]
        return o
    if k == 'dict':
        return hist({}, lambda o, i: o.__setitem__(i, i), lambda o, i: o.__delitem__(i), n, m)
    if k == 'dictstr':
        return hist({}, lambda o, i: o.__setitem__('k%d' % i, i), lambda o, i: o.__delitem__('k%d' % i), n, m)
    if k == 'split':
        o = Attrs()
        for i in range(n % 30):
            setattr(o, 'a%d' % i, i)
        return o.__dict__
    if k == 'set':
        return hist(set(), set.add, set.remove, n, m)
    if k == 'frozenset':
        return frozenset(range(n))
    if k == 'deque':
        return hist(collections.deque(), collections.deque.append, collections.deque.remove, n, m)
    if k == 'array':
        return hist(array.array('bhilqd'[n % 6]), lambda o, i: o.append(i % 100), lambda o, i: o.pop(), n % 60, m)
    if k == 'memview':
        return memoryview(bytes(n))
    if k == 'tuple':
        return tuple(range(n)) + (m,)
    if k == 'range':
        return range(n, m)
    if k == 'usize':
        return UserSize(n * 17 ** m)
    if k == 'usizeslots':
        return UserSizeSlots(n * 17 ** m)
    if k == 'usizesub':
        return UserSizeSub(n)
    if k == 'usizedict':
        o = UserSizeDict((i, i) for i in range(m * 3))
        o.n = n
        return o
    if k == 'usizeint':
        return UserSizeInt(n)
    if k == 'nosize':
        return [NoSize, lambda: NoSizeT(range(n)), lambda: NoSizeB(n), NoSizeS][m % 4]()
    if k == 'intsub':
        o = IntSub(1 << n)
        if m % 2:
            o.a = 1
        return o
    if k == 'strsub':
        return StrSub('a' * n)
    if k == 'bytessub':
        return BytesSub(b'a' * n)
    if k == 'tuplesub':
        return TupleSub(range(n))
    if k == 'listsub':
        return hist(ListSub(), list.append, list.remove, n, m)
    if k == 'listslots':
        return ListSlots(range(n))
    if k == 'setsub':
        return hist(SetSub(), set.add, set.remove, n, m)
    if k == 'ntup':
        return NTup(range(n))
    if k == 'attrs':
        o = Attrs()
        for i in range(n % 40):
            setattr(o, 'a%d' % i, i)
        if m == 1:
            for i in range(n % 40 // 2):
                delattr(o, 'a%d' % i)
        elif m == 2:
            o.__dict__
        return o
    if k == 'slots1':
        return Slots1()
    if k == 'slots5':
        return Slots5()
    if k == 'slotsdict':
        o = SlotsDict()
        if m:
            o.x = 1
        return o
    if k == 'type':
        return type('T%d' % (n % 3), (), {'__module__': 'gv', '__slots__': tuple('s%d' % i for i in range(n % 9))} if m % 2 else {'__module__': 'gv'})
    if k == 'func':
        x = n
        return lambda: x
    if k == 'lambda':
        return eval('lambda %s: 0' % ', '.join('a%d' % i for i in range(n % 20)))
    if k == 'wref':
        return weakref.ref(UserSize)
    if k == 'exc':
        return (ValueError, KeyError, OSError, RuntimeError)[m % 4](*range(n % 3))
    if k == 'ns':
        return types.SimpleNamespace(**{'a%d' % i: i for i in range(n % 20)})
    if k == 'pattern':
        return re.compile('a' * (n % 50) + 'b?')
    if k == 'code':
        return compile('x=%s' % '+'.join('y%d' % i for i in range(n % 30 + 1)), 'f', 'exec')
    if k == 'imm':
        return immnodeset(POOL[:n])
    if k == 'mutn':
        return hist(mutnodeset(), lambda o, i: o.add(POOL[i % 400]), lambda o, i: o.discard(POOL[i % 400]), n, m)
    if k == 'ng':
        return NodeGraph([(POOL[i % 7], POOL[i]) for i in range(n)])
    if k == 'bs':
        return immbitset(range(0, n * (64 * m + 1), 64 * m + 1))
    if k == 'mbs':
        return hist(mutbitset(), lambda o, i: o.add(i * 999 ** m), lambda o, i: o.discard(i * 999 ** m), n, m)
    if k == 'cpl':
        return ~immbitset(range(n))
    if k == 'immsub':
        o = ImmSub(POOL[:n])
        return o
    if k == 'mutsub':
        return MutSub(POOL[:n])
    if k == 'ngsub':
        return GraphSub([(POOL[0], POOL[i]) for i in range(n)])
    if k == 'odict':
        return hist(collections.OrderedDict(), lambda o, i: o.__setitem__(i, i), lambda o, i: o.__delitem__(i), n, m)
    if k == 'counter':
        return collections.Counter(range(n))
    if k == 'gen':
        return (x for x in (n,))
    if k == 'bmeth':
        return [].append
    if k == 'prop':
        return property()
    if k == 'module':
        o = types.ModuleType('m%d' % (n % 3))
        for i in range(m * 3):
            setattr(o, 'a%d' % i, i)
        return o
    if k == 'chmap':
        return types.MappingProxyType({})
    raise KeyError(k)


def class_name_cache(s):
    """make the interpreter cache the utf-8 form of the string"""
    try:
        exec('', {'__name__': s})
        getattr(Attrs, s, None)
        hasattr(object, s)
    except Exception:
        pass
    import _io
    try:
        _io.open_code('/nonexistent/' + s)
    except OSError:
        pass
    try:
        type(s, (), {})
    except Exception:
        pass


def gen_spec(r, kinds=KINDS, hi=120):
    k = r.choice(kinds)
    n = r.small(hi) if r.chance(0.7) else r.randint(0, hi)
    return [k, n, r.randrange(4)]


def grow(o, m):
    """a change of the object that may change its size; True if something was done"""
    t = type(o)
    if isinstance(o, list):
        (list.extend if m % 2 else lambda o, x: o.__delitem__(slice(len(o) // 2, None)))(o, range(m * 3))
    elif isinstance(o, dict) and t is not collections.Counter:
        if m % 3 == 0:
            o.clear()
        else:
            o.update((('n%d' % i), i) for i in range(m * 4))
    elif isinstance(o, (set, collections.deque)):
        if m % 3 == 0:
            o.clear()
        else:
            for i in range(m * 4):
                (o.add if isinstance(o, set) else o.append)(i + 1000)
    elif isinstance(o, bytearray):
        if m % 2:
            o.extend(bytes(m * 9))
        else:
            del o[len(o) // 3:]
    elif t in (UserSize, UserSizeSlots, UserSizeSub):
        o.n = m * 13
    elif t in (Attrs, IntSub, types.SimpleNamespace, SlotsDict):
        for i in range(m):
            setattr(o, 'b%d' % i, i)
    elif isinstance(o, mutnodeset):
        if m % 2:
            o |= POOL[m * 10:m * 20]
        else:
            o.clear()
    elif isinstance(o, NodeGraph):
        if m % 2:
            o.update([(POOL[1], POOL[i]) for i in range(m * 9)])
        else:
            o.clear()
    elif isinstance(o, mutbitset):
        if m % 2:
            o |= immbitset(range(0, m * 9000, 300))
        else:
            o.clear()
    elif isinstance(o, array.array):
        o.append(m)
    else:
        return False
    return True

# kinds whose objects do not lead to the module globals
SMALL = [k for k in KINDS if not k.startswith('usize') and k not in ('func', 'lambda', 'gen', 'wref', 'nosize', 'code', 'array', 'pattern', 'counter', 'module')]
