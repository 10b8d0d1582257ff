"""Generated object graphs and an independent account of what each object refers to.

A graph is described by JSON: {'n': [[kind, [ref, ...], x], ...]}; refs are taken modulo the number of
nodes.  build() makes the objects; refs() says what an object refers to, from the interpreter's own
garbage collector and from how the object was made, never from the code under test."""
import collections
import functools
import gc
import sys
import time
import _thread
import types
import weakref
from guppy.sets.setsc import CplBitSet
from pbt.core import HarnessError

MANAGED_DICT = 1 << 4
HEAPTYPE = 1 << 9


class N:  # marker for "not known"
    pass


# kinds that can refer to any node (filled after creation)
SHELLS = ['list', 'dict', 'set', 'obj', 'slots', 'slotdict', 'cell', 'func', 'listsub', 'dictsub', 'deque', 'odict', 'ddict', 'module',
          'exc', 'ns', 'cls', 'kdict', 'objkey']
# kinds made from existing objects (shells or earlier nodes)
DERIVED = ['tuple', 'frozenset', 'method', 'bmeth', 'partial', 'gen', 'proxy', 'tuplesub', 'prop', 'static', 'listiter', 'enum', 'slice',
           'wref', 'tb', 'frame', 'map', 'zip', 'galias', 'super', 'genframe', 'coro', 'namedtuple', 'genstack', 'clsmeth', 'chain', 'objframe', 'stackframe']
BASIC = ['list', 'dict', 'set', 'tuple', 'obj', 'slots', 'frozenset', 'kdict']
IDHASH = {'obj', 'slots', 'slotdict', 'cell', 'func', 'exc', 'module', 'cls', 'prop', 'static', 'method', 'gen', 'frame', 'genframe', 'coro',
          'objkey', 'partial', 'map', 'zip', 'listiter', 'enum', 'tb', 'super', 'genstack', 'clsmeth', 'chain', 'objframe', 'stackframe'}
IDHASH -= {'cell'}

_mk_code = compile('''
def mk(c0, c1):
    def f(a, *args, k=None):
        return (c0, c1)
    return f
def gen(a, b):
    yield a
    yield b
def genstack(a):
    for i in a:
        yield i
async def coro(a, b):
    return (a, b)
def frame(a, b):
    loc = [a]
    def inner():
        return b
    raise err
def fail(a, b):
    loc = (a, b)
    raise err
def top(f, a, b, out):
    try:
        f(a, b)
    except KeyError as e:
        out += [e]
def topx(box, code, glob, loc, out):
    try:
        box.pop()(code, glob, loc)
    except KeyError as e:
        out += [e]
''', '<gen>', 'exec')


def new_globals(**kw):
    g = {'__builtins__': {'object': object, 'KeyError': KeyError, '__name__': 'gm'}, '__name__': 'gm'}
    exec(_mk_code, g)
    g.update(kw)
    return g


def strip_modules():
    """Cut the links from the C modules of generated types to the import system, so that generated graphs stay small (worker processes only)"""
    for n in ('_functools', '_collections', 'itertools', '_weakref', '_operator'):
        m = sys.modules.get(n)
        if m is not None:
            m.__loader__ = m.__spec__ = None


def on_new_stack(f, *args):
    """Run f, which adds to its last argument, in a thread of its own, so that frames it leaves behind have no caller"""
    n = _thread._count()
    _thread.start_new_thread(f, args)
    t = time.monotonic()
    while not args[-1] or _thread._count() > n:
        time.sleep(0)
        if time.monotonic() > t + 10:
            raise HarnessError('helper thread does not end')


_obj_code = compile('x = a\ny = [x]\nraise err', '<objframe>', 'exec')


def obj_frame(glob, a):
    """frame with a locals dictionary (as of a class body)"""
    glob['err'] = KeyError()
    out = []
    on_new_stack(glob['topx'], [exec], _obj_code, glob, {'a': a}, out)
    glob['err'] = None
    e = out.pop()
    tb = e.__traceback__
    e.__traceback__ = None
    return tb.tb_next.tb_frame


def fail_tb(glob, f, a, b):
    """traceback whose innermost frame ran f(a, b), with no caller outside the generated globals"""
    out = []
    glob['err'] = KeyError()
    on_new_stack(glob['top'], f, a, b, out)
    e = out.pop()
    tb = e.__traceback__
    e.__traceback__ = None
    glob['err'] = None
    return tb


class G:
    """A built graph: nodes (objects), kinds, glob (the globals of generated functions), and keep (helpers to drop at the end)"""

    def __init__(self):
        self.nodes = []
        self.kinds = []
        self.spec = []

    def clear(self):
        for k, o in zip(self.kinds, self.nodes):
            try:
                if k in ('gen', 'coro', 'genstack'):
                    o.close()
                elif k in ('list', 'listsub', 'deque'):
                    o[:] = [] if k != 'deque' else ()
            except Exception:
                pass
        for o in self.glob.get('keepgen', ()):
            o.close()
        self.nodes = []


def gen_graph(r, lo=2, hi=9, kinds=None, dens=None):
    """JSON description of a graph"""
    n = r.randint(lo, hi)
    if kinds is None:
        mode = r.random()
        kinds = BASIC if mode < 0.35 else (SHELLS + DERIVED if mode < 0.9 else r.sample(SHELLS + DERIVED, 4))
    if dens is None:
        dens = r.pick(1, 2, 2, 3, 5)
    nodes = []
    chain = r.chance(0.3)
    for i in range(n):
        k = r.choice(kinds)
        refs = [r.randrange(n) for _ in range(r.randint(0, dens))]
        if chain and i + 1 < n:
            refs.insert(0, i + 1)
        if r.chance(0.15) and refs:
            refs.append(refs[0])
        if r.chance(0.1):
            refs.append(i)
        nodes.append([k, refs, r.randrange(4)])
    return {'n': nodes}


def gc_refs(o):
    return gc.get_referents(o)


def attrs(k):
    return 'abcdefghijkl'[k]


def build(d, extra=None):
    """extra: function(kind, G, refs, x) -> object for further kinds (shell phase)"""
    g = G()
    spec = d['n']
    n = len(spec)
    g.spec = spec
    glob = g.glob = new_globals(err=None)
    C = type('C', (), {'__module__': 'gm'})
    S = type('S', (), {'__module__': 'gm', '__slots__': ('a', 'b', 'c', '__weakref__')})
    SD = type('SD', (S,), {'__module__': 'gm', '__slots__': ('d', 'e', '__dict__')})
    LS = type('LS', (list,), {'__module__': 'gm'})
    DS = type('DS', (dict,), {'__module__': 'gm'})
    TS = type('TS', (tuple,), {'__module__': 'gm'})
    g.classes = [C, S, SD, LS, DS, TS]
    X = type('X', (Exception,), {'__module__': 'gm'})
    NT = None
    objs = [N] * n
    kinds = [s[0] for s in spec]
    g.kinds = kinds

    def shell(k, x, i):
        if k == 'list':
            return []
        if k in ('dict', 'kdict'):
            return {}
        if k == 'set':
            return set()
        if k in ('obj', 'objkey'):
            return C()
        if k == 'slots':
            return S()
        if k == 'slotdict':
            return SD()
        if k == 'cell':
            return types.CellType()
        if k == 'func':
            return glob['mk'](None, None)
        if k == 'listsub':
            return LS()
        if k == 'dictsub':
            return DS()
        if k == 'deque':
            return collections.deque()
        if k == 'odict':
            return collections.OrderedDict()
        if k == 'ddict':
            return collections.defaultdict()
        if k == 'module':
            return types.ModuleType('m%d' % i)
        if k == 'exc':
            return X()
        if k == 'ns':
            return types.SimpleNamespace()
        if k == 'cls':
            return type('D%d' % i, (C,) if x == 1 else (), dict({'__module__': 'gm'}, **({'__qualname__': 'Outer.D%d' % i} if x > 1 else {})))
        return N

    for i, (k, refs, x) in enumerate(spec):
        o = shell(k, x, i)
        if o is N and extra is not None:
            o = extra(k, g, x)
        objs[i] = o

    def have(refs):
        return [objs[j % n] for j in refs if objs[j % n] is not N]

    def at(l, i):
        return l[i] if i < len(l) else None

    def hashable(refs):
        out = []
        for j in refs:
            j %= n
            if objs[j] is not N and kinds[j] in IDHASH:
                out.append(objs[j])
        return out

    for i, (k, refs, x) in enumerate(spec):
        if objs[i] is not N:
            continue
        h = have(refs)
        if k == 'tuple':
            o = tuple(h) if h else tuple([[]])
        elif k == 'frozenset':
            o = frozenset(hashable(refs)) or frozenset([i + 1000.5])
        elif k == 'method':
            o = types.MethodType(glob['mk'](None, None), at(h, 0) if h and h[0] is not None else [])
        elif k == 'bmeth':
            l = next((y for y in h if type(y) is list), [])
            o = l.append
        elif k == 'partial':
            o = functools.partial(glob['gen'], *h[:2], **({'b': h[2]} if len(h) > 2 else {}))
        elif k in ('gen', 'genframe'):
            o = glob['gen'](at(h, 0), at(h, 1))
            if x:
                next(o)
            if k == 'genframe':
                o = o.gi_frame if not x % 2 else (o, o.gi_frame)
                if type(o) is tuple:
                    glob.setdefault('keepgen', []).append(o[0])
                    o = o[1]
        elif k == 'genstack':
            o = glob['genstack']([at(h, 0), at(h, 1)])
            if x:
                next(o)
        elif k == 'stackframe':
            o = glob['genstack']([at(h, 0), at(h, 1)])
            if x:
                next(o)
            glob.setdefault('keepgen', []).append(o)
            o = o.gi_frame
        elif k == 'coro':
            o = glob['coro'](at(h, 0), at(h, 1))
        elif k == 'proxy':
            dd = next((y for y in h if type(y) is dict), None)
            o = types.MappingProxyType(dd if dd is not None else {'a': at(h, 0)})
        elif k == 'tuplesub':
            o = TS(h)
            if x:
                o.a = at(h, 0)
        elif k == 'prop':
            o = property(at(h, 0), at(h, 1), at(h, 2), None)
        elif k == 'static':
            o = staticmethod(at(h, 0))
        elif k == 'clsmeth':
            o = classmethod(at(h, 0))
        elif k == 'listiter':
            o = iter(next((y for y in h if type(y) in (list, tuple) and (type(y) is not tuple or y)), [1]))
        elif k == 'enum':
            o = enumerate(next((y for y in h if type(y) in (list, tuple)), [1]))
        elif k == 'map':
            o = map(glob['gen'], next((y for y in h if type(y) in (list, tuple)), [1]))
        elif k == 'zip':
            o = zip([at(h, 0)], (at(h, 1), at(h, 2)))
        elif k == 'chain':
            import itertools
            o = itertools.chain([at(h, 0)], (at(h, 1), at(h, 2)))
        elif k == 'slice':
            o = slice(at(h, 0), at(h, 1), at(h, 2))
        elif k == 'wref':
            t = next((y for y in h if type(y) in (C, S, SD)), None)
            o = weakref.ref(t, at(h, 1)) if t is not None and callable(at(h, 1)) else weakref.ref(t if t is not None else C)
        elif k == 'galias':
            o = types.GenericAlias(list, tuple(h))
        elif k == 'super':
            t = next((y for y in h if type(y) is C), None)
            o = super(C, t if t is not None else C())
        elif k == 'namedtuple':
            if NT is None:
                NT = type('NT', (tuple,), {'__module__': 'gm', '__slots__': ()})
            o = NT(h)
        elif k == 'frame':
            o = fail_tb(glob, glob['frame'], at(h, 0), at(h, 1)).tb_next.tb_frame
        elif k == 'objframe':
            o = obj_frame(glob, at(h, 0))
        elif k == 'tb':
            o = fail_tb(glob, glob['fail'], at(h, 0), at(h, 1))
            if x:
                o = o.tb_next
        else:
            o = [k]
        objs[i] = o

    for i, (k, refs, x) in enumerate(spec):
        o = objs[i]
        h = [objs[j % n] for j in refs]
        hh = hashable(refs)
        if k == 'list':
            o.extend(h)
            if x == 3:
                o.append(None)
        elif k == 'dict':
            for m, y in enumerate(h):
                o[('k%d' % m) if x < 2 else (m if x == 2 else (m, 'k'))] = y
        elif k == 'kdict':
            for m, y in enumerate(hh):
                o[y] = h[(m + x) % len(h)]
        elif k == 'set':
            o.update(hh)
            if x == 3:
                o.add(i + 1000.25)
        elif k == 'obj':
            for m, y in enumerate(h):
                setattr(o, attrs(m % 12), y)
        elif k == 'objkey':
            for m, y in enumerate(hh):
                o.__dict__[y] = m
        elif k == 'slots':
            for m, y in enumerate(h[:3]):
                setattr(o, 'abc'[m], y)
        elif k == 'slotdict':
            for m, y in enumerate(h[:6]):
                setattr(o, 'adbefg'[m], y)
        elif k == 'cell':
            if h:
                o.cell_contents = h[0]
        elif k == 'func':
            if h:
                o.__closure__[0].cell_contents = h[0]
            if len(h) > 1:
                o.__defaults__ = tuple(h[1:3])
            if len(h) > 3:
                o.__kwdefaults__ = {'k': h[3]}
            if x & 1 and h:
                o.a = h[-1]
            if x & 2 and h:
                o.__annotations__ = {'a': h[0]}
        elif k == 'listsub':
            o.extend(h[1:])
            if h:
                o.a = h[0]
        elif k == 'dictsub':
            for m, y in enumerate(h[1:]):
                o['k%d' % m] = y
            if h:
                o.a = h[0]
        elif k == 'deque':
            o.extend(h)
        elif k in ('odict', 'ddict'):
            for m, y in enumerate(h):
                o['k%d' % m] = y
            if k == 'ddict' and x == 1 and h:
                o.default_factory = h[0] if callable(h[0]) else None
        elif k == 'module':
            for m, y in enumerate(h):
                setattr(o, attrs(m % 12), y)
        elif k == 'exc':
            o.args = tuple(h)
            if x and h:
                o.a = h[0]
            if x == 2:
                for y in h:
                    if isinstance(y, BaseException) and y is not o:
                        o.__cause__ = y
        elif k == 'ns':
            for m, y in enumerate(h):
                setattr(o, attrs(m % 12), y)
        elif k == 'cls':
            for m, y in enumerate(h):
                setattr(o, attrs(m % 12), y)
    # frames of finished functions are cleared lazily; nothing to do
    g.nodes = objs
    # materialise attribute dictionaries (asking for the heap does so)
    for o in objs:
        if type(o).__flags__ & MANAGED_DICT:
            o.__dict__
    return g


# --- what an object refers to ------------------------------------------------

def subclasses_dict(cls, cand):
    """The internal table of weak references to subclasses among candidate objects"""
    subs = {id(c) for c in cls.__subclasses__()}
    return [d for d in cand if type(d) is dict and d and all(type(k) is int and type(v) is weakref.ref for k, v in d.items())
            and {k for k, v in d.items() if v() is not None} == subs]


def code_refs(c):
    # the attributes are cached on the code object once asked for
    out = [c.co_consts, c.co_names, c.co_exceptiontable, c.co_filename, c.co_name, c.co_qualname, c.co_linetable]
    return out


def frame_refs(f):
    """From the interpreter's account of an unstarted/finished/suspended frame: its code, globals, builtins and variable values"""
    return [f.f_code, f.f_globals, f.f_builtins] + [f.f_back] * (f.f_back is not None) + [f.f_trace] * (f.f_trace is not None)


def refs(o):
    """(exact, referents): exact says whether the list is complete; the list may contain duplicates"""
    t = type(o)
    if t.__flags__ & MANAGED_DICT:
        o.__dict__
    if t is types.FrameType:
        return False, frame_refs(o)
    if t is types.CodeType:
        return False, code_refs(o)
    if isinstance(o, type):
        # metaclass instances: the type's own slots
        r = [o.__mro__, o.__bases__]
        r += gc.get_referents(o.__dict__)
        if o.__base__ is not None:
            r.append(o.__base__)
        if o.__flags__ & HEAPTYPE:
            r += [o.__name__, o.__qualname__]
        return False, r
    if t is CplBitSet:
        # not tracked by the collector; the library describes its member
        return True, [~o]
    return True, gc.get_referents(o)


def closure(start, ref, stop=()):
    """ids -> object reachable from start by ref(o), not passing through ids in stop"""
    seen = {}
    todo = list(start)
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in stop:
            continue
        seen[id(o)] = o
        todo.extend(ref(o))
    return seen
