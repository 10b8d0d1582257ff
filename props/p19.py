"""P19: the relative heap shows exactly what is new since the reference point."""
import array
import collections
import ctypes
import functools
import gc
import io
import operator
import types
from props.hpy import *
from props import graph, p07

SPEC = dict(
    id='P19', quick=5000, thorough=200000,
    rule='A case is one of three. (hz) A history over 8 places for objects of 30 kinds, each marked with a number of its own: made, linked, dropped, made and dropped in numbers so that addresses are used again, nested up to 300000 deep; '
         'horizons are made of all that is there, of a part or through the session, asked for news, and dropped in any order; news must be exactly the marked objects that are not in the set the horizon was made from. '
         '(rel) The same with reference points of the session, all reached objects compared by identity and by mark. (un) Generated graphs where some objects have a reference that belongs to nobody: exactly what only they reach is '
         'unreachable, and its statistics. '
         'Non-trivial: an address was used again for another object since a horizon was made and the news had both old and new objects (hz), the relative heap left out some and had some (rel), something was unreachable and something not (un).',
    assumptions=['objects are deallocated by their type: float, int and str operands that the interpreter frees by itself in specialised arithmetic, and objects that are moved when resized, are not seen by a horizon',
                 'no object survives its own deallocation by the finalizer of a builtin type'])

BASE = 10 ** 6


def setup():
    gc.disable()
    graph.strip_modules()
    p07.setup()


class S:
    __slots__ = ('n', 'l', '__weakref__')


class D:
    pass


class L(list):
    pass


class Q(collections.deque):
    pass


class F(float):
    __slots__ = ()


class P(functools.partial):
    pass


def mk_s(n):
    o = S()
    o.n = n
    o.l = []
    return o


def mk_d(n):
    o = D()
    o.n = n
    o.l = []
    return o


def mk_q(n):
    q = Q([n])
    q.x = 1
    return q


ENV = {'__builtins__': {'ValueError': ValueError}}
exec("""
def mk_func(n):
    def f(a=n):
        return a
    return f


def mk_gen(n):
    def g(n):
        yield n
    x = g(n)
    return x


def mk_tb(n):
    try:
        raise ValueError(n)
    except ValueError as e:
        return e
""", ENV)
mk_func, mk_gen, mk_tb = ENV['mk_func'], ENV['mk_gen'], ENV['mk_tb']
# kinds that reach the whole interpreter
FAR = ('bytesio', 'array', 'tb')


# name: (make, mark, where links go)
KINDS = {
    'slots': (mk_s, lambda o: o.n, lambda o: o.l),
    'inst': (mk_d, lambda o: o.n, lambda o: o.l),
    'list': (lambda n: [n], lambda o: o[0], lambda o: o),
    'sublist': (lambda n: L([n]), lambda o: o[0], lambda o: o),
    'deque': (lambda n: collections.deque([n]), lambda o: o[0], lambda o: o),
    'subdeque': (mk_q, lambda o: o[0], lambda o: o),
    'tuple': (lambda n: (n, []), lambda o: o[0], lambda o: o[1]),
    'tuple1': (lambda n: (n,), lambda o: o[0], None),
    'dict': (lambda n: {0: n, 1: []}, lambda o: o[0], lambda o: o[1]),
    'odict': (lambda n: collections.OrderedDict([(0, n)]), lambda o: o[0], None),
    'ddict': (lambda n: collections.defaultdict(list, {0: n}), lambda o: o[0], None),
    'set': (lambda n: {n}, lambda o: next(iter(o)), None),
    'fset': (lambda n: frozenset([n]), lambda o: next(iter(o)), None),
    'float': (lambda n: float(n), lambda o: int(o), None),
    'subfloat': (lambda n: F(n), lambda o: int(o), None),
    'str': (lambda n: 's%d' % n, lambda o: int(o[1:]), None),
    'bytes': (lambda n: b'b%d' % n, lambda o: int(o[1:]), None),
    'bytearray': (lambda n: bytearray(b'b%d' % n), lambda o: int(o[1:]), None),
    'complex': (lambda n: complex(n, 1), lambda o: int(o.real), None),
    'partial': (lambda n: functools.partial(object, n), lambda o: o.args[0], None),
    'subpartial': (lambda n: P(object, n), lambda o: o.args[0], None),
    'itemgetter': (lambda n: operator.itemgetter(n), lambda o: o.__reduce__()[1][0], None),
    'attrgetter': (lambda n: operator.attrgetter('a%d' % n), lambda o: int(o.__reduce__()[1][0][1:]), None),
    'bytesio': (lambda n: io.BytesIO(b'%d' % n), lambda o: int(o.getvalue()), None),
    'array': (lambda n: array.array('q', [n]), lambda o: o[0], None),
    'func': (mk_func, lambda o: o.__defaults__[0], None),
    'cell': (lambda n: types.CellType([n]), lambda o: o.cell_contents[0], lambda o: o.cell_contents),
    'method': (lambda n: types.MethodType(object, n), lambda o: o.__self__, None),
    'exc': (lambda n: KeyError(n), lambda o: o.args[0], None),
    'tb': (mk_tb, lambda o: o.args[0], None),
    'slice': (lambda n: slice(n), lambda o: o.stop, None),
    'range': (lambda n: range(n, n + 9), lambda o: o.start, None),
    'cls': (lambda n: type('K', (), {'n': n}), lambda o: o.n, None),
    'gen': (mk_gen, None, None),
    'ns': (lambda n: types.SimpleNamespace(n=n, l=[]), lambda o: o.n, lambda o: o.l),
    'proxy': (lambda n: types.MappingProxyType({0: n}), lambda o: o[0], None),
}
NAMES = list(KINDS)
COMMON = ['list', 'slots', 'inst', 'deque', 'tuple1', 'float', 'str', 'dict', 'partial', 'func']
DEEP = ['list', 'tuple', 'dict', 'set', 'inst', 'mix', 'deque', 'cell', 'method', 'partial', 'exc']
PLACES = 8


class Pool:
    """places for marked objects; what is there is found by walking"""

    def __init__(self):
        self.places = [None] * PLACES      # (kind, object)
        self.n = BASE
        self.freed = set()                 # ids of objects that were there

    def make(self, kind):
        self.n += 1
        return (kind, KINDS[kind][0](self.n))

    def live(self):
        """id -> (mark, object) of all marked objects"""
        out = {}
        todo = [p for p in self.places if p is not None]
        while todo:
            kind, o = todo.pop()
            if id(o) in out:
                continue
            mark = KINDS[kind][1]
            out[id(o)] = (kind, mark(o) if mark else None, o)
            links = KINDS[kind][2]
            if links:
                for x in links(o):
                    if type(x) is tuple and len(x) == 2 and x[0] in KINDS:
                        todo.append(x)
        return out

    def link(self, a, b):
        pa, pb = self.places[a], self.places[b]
        if pa is None or pb is None or KINDS[pa[0]][2] is None:
            return
        KINDS[pa[0]][2](pa[1]).append(pb)

    def unlink(self, a):
        pa = self.places[a]
        if pa is None or KINDS[pa[0]][2] is None:
            return
        l = KINDS[pa[0]][2](pa[1])
        if len(l) and type(l[-1]) is tuple:
            l.pop()

    def close(self):
        self.places[:] = []


def nest(kind, n):
    x = None
    for i in range(n):
        if kind == 'list' or kind == 'mix' and i % 3 == 0:
            x = [x]
        elif kind == 'tuple':
            x = (x,)
        elif kind == 'dict' or kind == 'mix' and i % 3 == 1:
            x = {0: x}
        elif kind == 'set':
            x = frozenset([x]) if i == 0 else (frozenset([i]), x)
        elif kind == 'deque':
            x = collections.deque([x])
        elif kind == 'cell':
            x = types.CellType(x)
        elif kind == 'method':
            x = types.MethodType(len, x) if x is not None else [1]
        elif kind == 'partial':
            x = functools.partial(len, [x])
        elif kind == 'exc':
            x = KeyError(x)
        else:
            y = S()
            y.l = x
            x = y
    return x


def gen_kindname(r):
    return r.choice(COMMON) if r.chance(0.5) else r.choice(NAMES)


def gen_hist(r, what):
    ops = []
    fav = [gen_kindname(r) for _ in range(r.pick(1, 2, 2))]
    fp = r.pick(0.9, 0.9, 0.5)
    n = r.randint(4, 30)
    early = r.randint(1, 8)
    for j in range(n):
        op = 'snap' if j == early else 'ask' if j == n - 1 else r.weighted([(8, 'new'), (4, 'link'), (5, 'del'), (2, 'unlink'), (3, 'snap'), (6, 'ask'), (2, 'drop'), (3, 'churn'), (0.08, 'deep'), (1, 'gc'), (1, 'part'), (1, 'replace')])
        k = r.choice(fav) if r.chance(fp) else gen_kindname(r)
        if op in ('new', 'replace'):
            a = [r.randrange(PLACES), k]
        elif op == 'link':
            a = [r.randrange(PLACES), r.randrange(PLACES)]
        elif op == 'churn':
            a = [k, r.pick(1, 3, 20)]
        elif op == 'deep':
            a = [r.choice(DEEP), r.pick(300, 3000, 60000, 300000)]
        elif op == 'part':
            a = [r.randrange(256), r.randrange(3)]
        else:
            a = [r.randrange(PLACES), r.randrange(3)]
        ops.append([op, a])
    return {'ops': ops}


def gen_hz(r):
    d = gen_hist(r, 'hz')
    d['view'] = r.chance(0.2)
    return d


def common(pool, op, a, st):
    """operations on the objects"""
    P = pool.places
    if op == 'new':
        P[a[0] % PLACES] = None
        P[a[0] % PLACES] = pool.make(a[1])
    elif op == 'replace':
        # the new one is made before the old one is freed
        P[a[0] % PLACES] = pool.make(a[1])
    elif op == 'link':
        pool.link(a[0] % PLACES, a[1] % PLACES)
    elif op == 'unlink':
        pool.unlink(a[0] % PLACES)
    elif op == 'del':
        P[a[0] % PLACES] = None
    elif op == 'churn':
        l = [pool.make(a[0]) for _ in range(min(a[1], 50))]
        del l
    elif op == 'deep':
        from guppy.heapy.heapyc import Horizon
        x = nest(a[0], min(a[1], 300000))
        hz = Horizon([x, [], {}, S()])
        del x
    elif op == 'gc':
        gc.collect()
    else:
        return False
    return True


def run_hz(d, st):
    from guppy.heapy.heapyc import Horizon
    pool = Pool()
    hzs = [None, None, None]       # [horizon, {id: mark} of the objects that were there and still are]
    h = hp()
    old = h.View.root
    reused = both = 0

    def live():
        return {i: (k, n) for i, (k, n, o) in pool.live().items()}

    def sync():
        """forget the objects that are gone; marks tell whether it is the same object"""
        nonlocal reused
        now = live()
        for x in hzs:
            if x is not None:
                for i, kn in list(x[1].items()):
                    if i not in now or now[i] != kn or kn[1] is None and i in gone:
                        if i in now:
                            reused += 1
                            st.label('reuse ' + now[i][0])
                        del x[1][i]
        return now

    gone = set()
    serial = {}        # id -> token of unmarked objects (generators): those made since
    try:
        h.View.root = [pool.places]
        for op, a in d['ops']:
            st.label('op ' + op)
            before = live() if op in ('del', 'new', 'replace', 'unlink', 'gc') else None
            if common(pool, op, a, st):
                if op == 'deep':
                    st.label('deep ' + a[0])
                # unmarked objects: those at the same place are compared by when they went away
                if before is not None:
                    mid = live()
                    for i, (k, n) in before.items():
                        if n is None and i not in mid:
                            gone.add(i)
                    if op in ('new', 'replace'):
                        o = pool.places[a[0] % PLACES]
                        if KINDS[o[0]][1] is None:
                            gone.add(id(o[1]))
                        del o
                sync()
                gone.clear()
                continue
            now = sync()
            if op in ('snap', 'part'):
                slot = a[1] % 3
                if op == 'part':
                    sel = [pool.places[i] for i in range(PLACES) if a[0] >> i & 1 and pool.places[i] is not None]
                    have = {id(o): now[id(o)] for k, o in sel}
                    hz = Horizon([o for k, o in sel])
                    del sel
                else:
                    have = dict(now)
                    if d['view']:
                        hz = h.View.horizon()
                    else:
                        hz = Horizon([o for k, n, o in pool.live().values()])
                hzs[slot] = [hz, have, d['view'] and op == 'snap']
            elif op == 'drop':
                hzs[a[1] % 3] = None
            elif op == 'ask':
                x = hzs[a[1] % 3]
                if x is None:
                    continue
                if x[2]:
                    got = [id(o) for o in x[0].news().nodes]
                    got = {i for i in got if i in now}
                else:
                    res = x[0].news([o for k, n, o in pool.live().values()])
                    got = [id(o) for o in res]
                    eq(len(res), len(got), 'length of news')
                    eq(len(set(got)), len(got), 'news')
                    got = set(got)
                    del res
                    check(len(x[0].news([x[0]])) == 0, 'the horizon is news')
                want = set(now) - set(x[1])
                if got != want:
                    raise Violation('news are %s, want %s; there are %s, the horizon has %s' % (sorted(now[i] for i in got if i in now), sorted(map(str, (now[i] for i in want))), sorted(map(str, now.values())), sorted(map(str, x[1].values()))))
                both += 0 < len(want) < len(now)
            x = hz = None
        st.nontrivial(reused > 0 and both > 0)
    finally:
        h.View.root = old
        pool.close()
        hzs[:] = []


# --------------------------------------------------------- freed by arithmetic

def arith_int(l):
    while l:
        l.pop() + 1


def arith_str(l):
    while l:
        l.pop() + 'x'


ARITH = {'int': (arith_int, lambda n: 10 ** 20 + n), 'str': (arith_str, lambda n: 's%d' % n)}


def gen_arith(r):
    return {'k': r.choice(list(ARITH)), 'n': r.pick(1, 3, 20), 'hot': r.chance(0.5)}


def run_arith(d, st):
    from guppy.heapy.heapyc import Horizon
    f, mk = ARITH[d['k']]
    for _ in range(8 if d['hot'] else 0):
        f([mk(i) for i in range(30)])
    n = max(1, min(d['n'], 50))
    l = [mk(i) for i in range(n)]
    old = ids(l)
    hz = Horizon(l)
    f(l)
    l = [mk(i + 1000) for i in range(n + 30)]
    res = hz.news(l)
    st.nontrivial(bool(old & ids(l)))
    if len(res) != len(l):
        raise Violation('%d of %d new objects of type %s are news: those at addresses of objects that were freed in arithmetic are not' % (len(res), len(l), d['k']), key='horizon-arith-%s' % d['k'])


# ------------------------------------------------------------- reference points

def gen_rel(r):
    d = gen_hist(r, 'rel')
    for op, a in d['ops']:
        if a[-1] in FAR or a[0] in FAR:
            a[:] = ['slots' if x in FAR else x for x in a]
    d['full'] = r.chance(0.03)
    return d


def run_rel(d, st):
    h = hp()
    pool = Pool()
    old = h.View.root
    root = [pool.places]
    ref = p07.ref_fun([])
    snap = {}
    marks = set()
    some = 0

    def world():
        gc.collect()
        for k, n, o in pool.live().values():
            if type(o).__flags__ & graph.MANAGED_DICT:
                o.__dict__
        gens = [o for k, n, o in pool.live().values() if k == 'gen']
        return graph.closure([root], p07.ref_fun(gens))
    try:
        h.View.root = root
        h.relheap = h.Nothing
        for op, a in d['ops']:
            st.label('op ' + op)
            if common(pool, op, a, st):
                continue
            if op == 'snap':
                w = world()
                if d['full']:
                    h.setref()
                else:
                    h.setrelheap()
                snap = dict.fromkeys(w)
                marks = {(k, n) for k, n, o in pool.live().values()}
                w = None
            elif op == 'part':
                sel = [pool.places[i] for i in range(PLACES) if a[0] >> i & 1 and pool.places[i] is not None]
                s = h.iso(*[o for k, o in sel])
                h.setref(reachable=s)
                snap = {id(o): None for k, o in sel}
                marks = {(k, KINDS[k][1](o) if KINDS[k][1] else None) for k, o in sel}
                del sel, s
            elif op == 'drop':
                h.relheap = h.Nothing
                snap = {}
                marks = set()
            elif op == 'ask':
                w = world()
                x = h.heap()
                got = {id(o): o for o in x.nodes}
                want = {i: o for i, o in w.items() if i not in snap}
                miss = [o for i, o in want.items() if i not in got]
                extra = [o for i, o in got.items() if i not in want]
                if miss or extra:
                    nm = Names()
                    raise Violation('relative heap: missing %s, unexpected %s (%d, want %d)' % (nm.set(miss), nm.set(extra), len(got), len(want)))
                o = None
                for k, n, o in pool.live().values():
                    if n is not None:
                        eq(id(o) in got, (k, n) not in marks, 'object %s in the relative heap', (k, n))
                eq(x.count, len(want), 'count of the relative heap')
                some += bool(want) and len(want) < len(w)
                del x, got, want, w, miss, extra, o
            o = None
        st.nontrivial(some > 0)
    finally:
        h.relheap = h.Nothing
        h.relheapu = h.Nothing
        h.View.root = old
        pool.close()


# --------------------------------------------------------------- unreachable

def gen_un(r):
    n = r.randint(1, 12)
    return {'n': [[r.pick('list', 'slots', 'tuple', 'dict', 'set', 'float', 'str', 'cell', 'deque'), [r.randrange(n) for _ in range(r.pick(0, 1, 1, 2, 3))]] for _ in range(n)],
            'leak': [r.randrange(n) for _ in range(r.pick(0, 1, 1, 2, 3))], 'held': [r.randrange(n) for _ in range(r.pick(0, 1, 2))], 'ref': r.randrange(3), 'late': [r.randrange(n) for _ in range(r.pick(0, 1))]}


class Hold:
    held = []


_base = []


def make_un(d):
    n = len(d['n'])
    objs = []
    for i, (k, links) in enumerate(d['n']):
        t = [objs[j % n] for j in links if j % n < len(objs)]
        if k == 'list':
            o = t + [object()]
        elif k == 'tuple':
            o = tuple(t) + (object(),)
        elif k == 'dict':
            o = dict(enumerate(t))
            o['x'] = object()
        elif k == 'set':
            o = {object()}
        elif k == 'cell':
            o = types.CellType(t)
        elif k == 'deque':
            o = collections.deque(t)
        elif k == 'float':
            o = float(i) + .5
        elif k == 'str':
            o = 'own string %d' % (i * 3)
        else:
            o = S()
            o.l = t
        objs.append(o)
    for i, (k, links) in enumerate(d['n']):
        back = [objs[j % n] for j in links if j % n >= i]
        if k == 'list':
            objs[i].extend(back)
        elif k == 'dict':
            objs[i]['b'] = back
        elif k == 'slots':
            objs[i].l.extend(back)
        elif k == 'cell':
            objs[i].cell_contents.extend(back)
    return objs


def leaf_refs(o):
    if type(o) in (list, tuple, dict, set, types.CellType, collections.deque, S):
        return [x for x in gc.get_referents(o) if type(x) in (list, tuple, dict, set, types.CellType, collections.deque, S, object, float, str) and not (type(x) is str and len(x) < 5)]
    return []


def reach(objs):
    seen = {}
    todo = list(objs)
    while todo:
        o = todo.pop()
        if id(o) not in seen:
            seen[id(o)] = gc.is_tracked(o), type(o)
            todo += leaf_refs(o)
    return seen


def sizes(h, ids_):
    return h.View.hv.indisize_sum([ctypes.cast(i, ctypes.py_object).value for i in ids_])


def run_un(d, st):
    h = hp()
    h.relheapu = h.Nothing
    inc, dec = ctypes.pythonapi.Py_IncRef, ctypes.pythonapi.Py_DecRef
    leaked = []
    old = h.View.root
    h.View.root = heapyc.RootState

    def ask():
        x = h.heapu(stat=0)
        r = {id(o) for o in x.nodes}
        del x
        return r
    try:
        if not _base:
            ask()
            _base.append(1)
        base = ask()
        objs = make_un(d)
        n = len(objs)
        Hold.held = [objs[i % n] for i in d['held']]
        L = [objs[i % n] for i in d['leak']]
        late = [objs[i % n] for i in d['late']]
        hold = set(reach(Hold.held))

        def unreachable(l):
            # what tracked ones among the leaked keep
            out = {}
            gc.collect()
            for o in l:
                r = reach([o])
                # an object that the collector does not know is not found by it
                if gc.is_tracked(o):
                    out.update(r)
                else:
                    for i, (tr, t) in r.items():
                        if tr:
                            out.update(reach([ctypes.cast(i, ctypes.py_object).value]))
            return {i: t for i, (tr, t) in out.items() if i not in hold}
        want1 = unreachable(L)
        want2 = unreachable(L + late)
        o = None
        for o in L:
            inc(ctypes.py_object(o))
            leaked.append(id(o))
        addr = [id(o) for o in late]
        if d['ref'] != 2:
            del late
        else:
            Hold.late = late
            del late
        del o, L
        objs = None
        got = ask()
        if d['ref'] == 2:
            # the late ones are still held, with all they reach
            h2 = set(reach(Hold.late))
            want1 = {i: t for i, t in want1.items() if i not in h2}
        compare_un(got - base, want1, 'unreachable')
        check(base <= got, 'objects unreachable before are not shown')
        some = bool(want1) and bool(hold)
        if d['ref']:
            h.setref(unreachable=h.heapu(abs=True)) if d['ref'] == 1 else h.setrelheapu()
            s = h.heapu()
            eq((s.count, s.size), (0, 0), 'count and size of the unreachable heap after a reference point')
            del s
            if d['ref'] == 2:
                for i in addr:
                    inc(ctypes.cast(i, ctypes.py_object))
                    leaked.append(i)
                Hold.late = None
                s = h.heapu()
                new = set(want2) - set(want1)
                eq((s.count, s.size), (len(new), sizes(h, new)), 'count and size of what became unreachable')
                del s
                some = some or bool(new)
        h.relheapu = h.Nothing
        st.nontrivial(some)
        for t in want1.values():
            st.label('un ' + t.__name__)
        while leaked:
            dec(ctypes.cast(leaked.pop(), ctypes.py_object))
        got = ask()
        compare_un(got - base, {}, 'unreachable after they were freed')
    finally:
        h.relheapu = h.Nothing
        h.View.root = old
        Hold.held = []
        Hold.late = None
        while leaked:
            dec(ctypes.cast(leaked.pop(), ctypes.py_object))


def compare_un(got, want, what):
    if got != set(want):
        miss = [want[i].__name__ for i in want if i not in got]
        extra = [type(ctypes.cast(i, ctypes.py_object).value).__name__ for i in got if i not in want]
        raise Violation('%s: missing %s, unexpected %s' % (what, miss, extra))


FACETS = {
    'hz': (40, gen_hz, run_hz),
    'rel': (20, gen_rel, run_rel),
    'arith': (0.5, gen_arith, run_arith),
    'un': (2, gen_un, run_un),
}
