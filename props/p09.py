"""P09: relations between objects: present for every reference, and true when carried out."""
import collections
import gc
import sys
import types
from props.hpy import *
from props import graph, p07

SPEC = dict(
    id='P09', quick=25000, thorough=300000,
    rule='A case is a generated object graph (as P07) or a suspended, finished or cell-carrying frame, code object, class or set; for every reference held by a node or by something directly '
         'in it the number of edges is compared with the reference counts of the interpreter, a relation must exist for described types, and every relation reported, also between unconnected pairs, is carried out. '
         'Non-trivial: at least 5 relations of 2 different codes were carried out.',
    assumptions=['relations to the type of an object and to values in its attribute dictionary or mapping are true relations although not direct references',
                 'types without a description of their own (iterators, deques, generators, exceptions, ...) may have references without a relation',
                 'internal relations (->name) have no expression; they are checked only where the internal value is observable'])

ATTR, IVAL, IKEY, INTER, HAS, LOCAL, CELL, STACK, INSET, RELSRC = 1, 2, 3, 4, 5, 6, 7, 8, 9, 10


def setup():
    gc.disable()
    graph.strip_modules()
    p07.setup()


DESCR = {'list', 'dict', 'kdict', 'set', 'obj', 'objkey', 'slots', 'slotdict', 'cell', 'func', 'listsub', 'dictsub', 'module', 'cls', 'mcls', 'mobj', 'tuple', 'frozenset', 'method', 'bmeth', 'partial', 'proxy',
         'tuplesub', 'prop', 'static', 'clsmeth', 'slice', 'tb', 'frame', 'super', 'genframe', 'stackframe', 'objframe', 'namedtuple', 'setsub', 'fsetsub', 'objsub', 'cellframe', 'ns'}
DESCR_TYPES = (list, dict, tuple, set, frozenset, types.FunctionType, types.ModuleType, types.FrameType, types.TracebackType, types.CellType, types.BuiltinFunctionType, types.CodeType,
               type, types.MappingProxyType)

_cell_code = compile('''
def cellgen(a, b):
    c = a
    def inner():
        return (a, c, d)
    for i in (b, b):
        yield inner
        d = i
    del c
    yield inner
def nocell(a, b):
    if a is None:
        c = b
    def inner():
        return c
    yield inner
def kwonly(a, *b, k=None, **z):
    yield (lambda: (a, b, k, z))
def comp(a, b):
    y = [lambda: (i, b) for i in (1, [b], a)]
    yield y
    i = a
    yield y
    y = [lambda: (i, b) for i in (1, [b], a)]
    yield y
def plain(a, b, out):
    c = a
    def inner():
        return (a, c, d)
    d = b
    out.append(fr())
''', '<cellgen>', 'exec')

KINDS = p07.KINDS + ['setsub', 'fsetsub', 'objsub', 'cellframe', 'cellgen']
SetSub = type('SetSub', (set,), {'__module__': 'gm'})
FSetSub = type('FSetSub', (frozenset,), {'__module__': 'gm'})
Base1 = type('Base1', (object,), {'__module__': 'gm', '__slots__': ('p', 'q')})
ObjSub = type('ObjSub', (Base1,), {'__module__': 'gm', '__slots__': ('r', '__weakref__')})
ObjSub2 = type('ObjSub2', (ObjSub,), {'__module__': 'gm'})


def extra(k, g, x):
    if k == 'setsub':
        return SetSub()
    if k == 'objsub':
        return ObjSub2() if x > 1 else ObjSub()
    if k in ('cellframe', 'cellgen', 'fsetsub'):
        return []
    return p07.extra(k, g, x)


def build(d):
    n = len(d['n'])
    g = graph.build(d, extra)
    keep = g.glob.setdefault('keepgen', [])
    for i, ((k, refs, x), o) in enumerate(zip(d['n'], g.nodes)):
        h = [g.nodes[j % n] for j in refs]
        hh = [g.nodes[j % n] for j in refs if g.kinds[j % n] in graph.IDHASH]
        if k == 'mcls':
            for m, y in enumerate(h):
                setattr(o, graph.attrs(m % 12), y)
        elif k == 'mobj' and x and h:
            o.a = h[0]
        elif k == 'setsub':
            o.update(hh)
            o.add((i, x))
            if h:
                o.z = h[0]
        elif k == 'fsetsub':
            o = g.nodes[i] = FSetSub(hh + [(i, 5)])
            if h:
                o.z = h[0]
        elif k == 'objsub':
            for m, y in enumerate(h[:3 + (x > 1)]):
                setattr(o, 'pqrs'[m], y)
        elif k in ('cellframe', 'cellgen'):
            if 'cellgen' not in g.glob:
                exec(_cell_code, g.glob)
                g.glob['fr'] = sys._getframe
            a, b = (h + [None, None])[:2]
            if k == 'cellframe' and len(refs) % 3 == 0:
                out = []
                graph.on_new_stack(g.glob['plain'], a, b, out)
                fr = out[0]
                if x % 2:
                    fr.clear()
                g.nodes[i] = fr
                continue
            f = g.glob[('cellgen', 'comp', 'nocell', 'kwonly')[x]]
            gen = f(a, b)
            for _ in range(len(refs) % 4):
                next(gen, None)
            if gen.gi_frame is not None:
                keep.append(gen)
                g.nodes[i] = gen.gi_frame if k == 'cellframe' else gen
    for o in g.nodes:
        if type(o).__flags__ & graph.MANAGED_DICT:
            o.__dict__
    return g


def inst_dict(o):
    if isinstance(o, type):
        return None
    if type(o).__dictoffset__ or type(o).__flags__ & graph.MANAGED_DICT or type(o) in (types.ModuleType, types.FunctionType):
        return o.__dict__
    return None


def _get(o, name):
    try:
        return getattr(o, name)
    except Exception:
        return graph.N


def carry_out(code, r, o, t, hv, names):
    """is the relation true?"""
    if code == ATTR:
        if isinstance(o, type) and r == '__dict__':
            return type(o.__dict__) is types.MappingProxyType and any(x is t for x in gc.get_referents(o.__dict__))
        if type(r) is str and _get(o, r) is t:
            return True
        d = inst_dict(o)
        if d is not None and r in d and d[r] is t:
            return True
        return False
    if code == IVAL:
        if isinstance(o, (list, tuple)):
            return type(r) is int and 0 <= r < len(o) and (list if isinstance(o, list) else tuple).__getitem__(o, r) is t
        if isinstance(o, dict):
            return any(k is r and v is t for k, v in dict.items(o))
        if type(o) is types.MappingProxyType:
            return any(k is r and v is t for k, v in o.items())
        return False
    if code == IKEY:
        l = list(o.keys() if type(o) is types.MappingProxyType else dict.keys(o))
        return 0 <= r < len(l) and l[r] is t
    if code == HAS:
        l = list(inst_dict(o).keys())
        return 0 <= r < len(l) and l[r] is t
    if code == INSET:
        l = list(o)
        return 0 <= r < len(l) and l[r] is t
    if code == LOCAL:
        c = o.f_code
        if type(t) is types.CellType and r in c.co_cellvars + c.co_freevars:
            try:
                return o.f_locals.get(r, graph.N) is t.cell_contents
            except ValueError:
                return r not in o.f_locals
        return o.f_locals.get(r, graph.N) is t and r in c.co_varnames + c.co_cellvars + c.co_freevars
    if code == CELL:
        return r in o.f_code.co_cellvars + o.f_code.co_freevars and o.f_locals.get(r, graph.N) is t
    if code == STACK:
        return type(r) is int and 0 <= r < o.f_code.co_stacksize
    if code == INTER:
        if r == 'ob_type':
            return type(o) is t
        if r == 'tp_subclasses':
            return type(t) is dict and {id(v()) for v in t.values() if v() is not None} == {id(c) for c in type.__subclasses__(o)}
        if r == 'mapping':
            return any(x is t for x in gc.get_referents(o))
        if r == 'f_funcobj':
            return type(t) is types.FunctionType and t.__code__ is o.f_code or t is None
        if r == 'co_localsplusnames':
            return type(t) is tuple
        if r == 'co_localspluskinds':
            return type(t) is bytes
        if r == 'ht_slots':
            return type(t) is tuple and all(type(x) is str for x in t)
        if r in ('tp_cache', 'ht_module', 'f_func'):
            return True
        return False
    return False


class Rel:
    def __init__(self, names):
        self.n = collections.Counter()
        self.names = names

    def pair(self, o, t, hv):
        rc = sys.getrefcount(t), sys.getrefcount(o)
        rel = hv.relate(o, t)
        if o is not t and type(o) is not types.FrameType:
            rc2 = sys.getrefcount(t) - sum(r is t for rs in rel for r in rs), sys.getrefcount(o)
            if rc != rc2 and rc[0] < 1 << 31:
                raise Violation('relate(%s, %s) changes the reference counts from %s to %s' % (self.names.of(o), self.names.of(t), rc, rc2))
        if type(rel) is not tuple or len(rel) != 11 or not all(type(x) is tuple for x in rel):
            raise Violation('relate gives %.200r' % (rel,))
        miss = []
        if isinstance(o, (list, tuple)):
            it = (list if isinstance(o, list) else tuple).__iter__(o)
            miss = [i for i, x in enumerate(it) if x is t and i not in rel[IVAL]]
        elif isinstance(o, dict):
            miss = [i for i, x in enumerate(dict.keys(o)) if x is t and i not in rel[IKEY]] + [k for k, x in dict.items(o) if x is t and not any(r is k for r in rel[IVAL])]
        if not miss and not isinstance(o, type) and type(o).__module__ == 'gm':
            d = inst_dict(o)
            miss = [] if d is None else [k for k, x in d.items() if x is t and type(k) is str and k not in rel[ATTR]]
        if miss:
            raise Violation('%s is in %s also at %.80r, which is not reported: %r' % (self.names.of(t), self.names.of(o), miss, rel))
        k = 0
        for code, rs in enumerate(rel):
            seen = set()
            for r in rs:
                k += 1
                self.n[code] += 1
                key = (type(r), r) if type(r) in (int, str) else id(r)
                if key in seen:
                    raise Violation('relation %d %r between %s and %s reported twice' % (code, r, self.names.of(o), self.names.of(t)))
                seen.add(key)
                if not carry_out(code, r, o, t, hv, self.names):
                    raise Violation('relation %d %.80r does not lead from %s to %s' % (code, r, self.names.of(o), self.names.of(t)))
        return k


def described(o, kind=None):
    return kind in DESCR if kind is not None else type(o) in DESCR_TYPES or type(o).__flags__ & graph.HEAPTYPE and type(o).__module__ == 'gm' and not isinstance(o, BaseException)


def indirect(o, t):
    """relations that are true without a direct reference"""
    if type(o) is t:
        return True
    d = inst_dict(o)
    if d is not None and any(k is t or v is t for k, v in d.items()):
        return True
    if type(o) is types.MappingProxyType:
        return any(k is t or v is t for k, v in o.items())
    if type(o) is types.FrameType:
        # read-only views of the same values
        return any(v is t for v in o.f_locals.values())
    if type(o) is types.BuiltinFunctionType:
        return o.__module__ is t
    if isinstance(o, type):
        return True
    return False


def gen_pairs(r):
    mode = r.random()
    kinds = graph.BASIC if mode < 0.15 else (KINDS if mode < 0.8 else r.sample(KINDS, 5))
    return {'g': graph.gen_graph(r, 2, 9, kinds), 'inner': r.chance(0.7)}


def run_pairs(d, st):
    g = build(d['g'])
    names = Names(g)
    gens = p07.gens_of(g)
    hv = view(None)
    R = Rel(names)
    try:
        items = [(o, k) for o, k in zip(g.nodes, g.kinds)]
        if d['inner']:
            seen = ids(g.nodes)
            for o in g.nodes:
                for x in gc.get_referents(o):
                    if id(x) not in seen and type(x) in DESCR_TYPES + (types.MethodType,) or isinstance(x, type) and id(x) not in seen:
                        seen.add(id(x))
                        items.append((x, None))
        tn = []
        for x in g.nodes:
            if id(x) not in ids(tn):
                tn.append(x)
        for o, kind in items:
            p07.prime(o)
            ex = graph.refs(o)[0]
            w = p07.want_of(o, list(hv.relimg([o])), gens)
            if type(o) is types.FrameType:
                # the names used in messages are those of f_locals: made once, then part of the frame
                o.f_locals
                w = p07.want_of(o, list(hv.relimg([o])), gens)
            cnt = collections.Counter(map(id, w))
            objs = {id(x): x for x in w}
            for i, t in objs.items():
                ne = hv.numedges(o, t)
                if ex:
                    check(ne == cnt[i], '%d edges reported from %s to %s, there are %d', ne, names.of(o), names.of(t), cnt[i])
                else:
                    check(ne > 0, 'no edge reported from %s to %s', names.of(o), names.of(t))
                k = R.pair(o, t, hv)
                if not k and described(o, kind) and not known_undescribed(o, t, kind):
                    raise Violation('no relation from %s to %s, which it refers to' % (names.of(o), names.of(t)))
            for t in tn:
                if id(t) in objs:
                    continue
                check(hv.numedges(o, t) == 0, 'an edge is reported from %s to %s, which it does not refer to', names.of(o), names.of(t))
                k = R.pair(o, t, hv)
                if k and not indirect(o, t):
                    raise Violation('a relation is reported from %s to %s, which it does not refer to: %r' % (names.of(o), names.of(t), hv.relate(o, t)))
            st.label('source ' + type(o).__name__)
        for c, m in R.n.items():
            st.label('relations of code %d' % c, m)
        st.nontrivial(sum(R.n.values()) >= 5 and len(R.n) >= 2)
    finally:
        g.clear()


def known_undescribed(o, t, kind):
    if isinstance(o, type) or type(o) is types.CodeType:
        return False
    if kind == 'ns' or kind == 'partial' or type(o) is types.FrameType:
        return False
    if isinstance(o, types.BuiltinFunctionType):
        return False
    return False


# --- descriptions, as the session prints them -----------------------------------

def gen_desc(r):
    d = gen_pairs(r)
    d['g'] = graph.gen_graph(r, 2, 6, ['list', 'dict', 'tuple', 'obj', 'slots', 'listsub', 'dictsub', 'tuplesub', 'cell', 'func', 'module', 'kdict', 'set', 'frozenset', 'slotdict', 'prop', 'method', 'objsub'])
    return d


def run_desc(d, st):
    """the textual descriptions evaluate to the target"""
    g = build(d['g'])
    names = Names(g)
    h = hp()
    n = 0
    try:
        for o in g.nodes:
            for t in graph.refs(o)[1]:
                rels = h._parent.Path.relations(o, t)
                check(rels, 'no relation listed')
                one = h._parent.Path.relation(o, t)
                texts = [x.stra('%s', safe=False) for x in rels if x.code >= 0]
                if len(texts) > 1:
                    eq(one.stra('%s', safe=False), '<' + ','.join(texts) + '>', 'joint description')
                for x in rels:
                    if x.code in (0, -1, INTER):
                        continue
                    s = x.stra('X', safe=False)
                    check(str(x).startswith('%s') or x.code == INSET, 'description %r', str(x))
                    if x.code == ATTR and not (type(x.r) is str and x.r.isidentifier()):
                        continue
                    if x.code == IVAL and type(x.r) not in (int, str, tuple):
                        continue
                    s = s.replace('.keys()', '.keys().__iter__()') if 0 else s
                    if '.keys()[' in s:
                        a, b = s.split('.keys()', 1)
                        s = 'list(%s.keys())%s' % (a, b)
                    try:
                        v = eval(s, {'X': o, 'list': list})
                    except Exception as e:
                        raise Violation('description %r of the reference from %s to %s: %r' % (s, names.of(o), names.of(t), e))
                    if v is not t and not (isinstance(o, type) and x.r == '__dict__'):
                        raise Violation('description %r of the reference from %s to %s gives %.80r' % (s, names.of(o), names.of(t), v))
                    n += 1
        st.nontrivial(n >= 5)
    finally:
        g.clear()


FACETS = {
    'pairs': (5, gen_pairs, run_pairs),
    'desc': (1, gen_desc, run_desc),
}
