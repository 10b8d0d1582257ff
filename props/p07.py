"""P07: referents and reachability against the interpreter's own account of references."""
import gc
import sys
import types
from props.hpy import *
from props import graph

SPEC = dict(
    id='P07', quick=25000, thorough=300000,
    rule='A case is a generated object graph of 2-14 nodes over 46 node kinds (containers, instances with dictionaries and slots, subclasses, functions, cells, methods, frames, '
         'generators, tracebacks, iterators, modules, classes, ...); referents of every node, and reachability from a start set avoiding another set, are compared with the closure of the '
         "references the interpreter's garbage collector reports. Non-trivial: at least 4 generated nodes are reachable and 3 references hold between generated nodes.",
    assumptions=['the reference set of an object is what gc.get_referents reports for it, plus the interpreter-documented links of code, frame and type objects',
                 'the value stack of a frame that is currently executing is not observable',
                 'links of an object to its type count where the interpreter counts them (heap types)'])

HV = None


def setup():
    global HV
    gc.disable()
    graph.strip_modules()
    HV = view()


def frame_want(f, gens=()):
    """what a frame that is not executing refers to, from its own attributes and its generator"""
    l = graph.frame_refs(f) + gc.get_referents(f)
    for g in gens:
        if g.gi_frame is f:
            l += [x for x in gc.get_referents(g) if x is not g.__name__ and x is not g.__qualname__]
    return [x for x in l if x is not f]


def prime(o):
    # these attributes are made, and from then on held by the code object, when first asked for
    if type(o) is types.CodeType:
        o.co_code, o.co_varnames, o.co_cellvars, o.co_freevars


def code_want(c, got):
    known = graph.code_refs(c)
    check(ids(known) <= ids(got), 'a code object does not refer to its own attributes')
    ki = ids(known)
    extra = [x for x in got if id(x) not in ki]
    allv = c.co_varnames + tuple(x for x in c.co_cellvars if x not in c.co_varnames) + c.co_freevars
    nb = 0
    ntup = 0
    cached = ids((c.co_code, c.co_varnames, c.co_cellvars, c.co_freevars))
    for x in extra:
        if type(x) is bytes and len(x) == len(allv) and nb == 0 and id(x) not in cached:
            nb += 1
        elif type(x) is tuple and x == allv and id(x) not in cached and ntup == 0:
            ntup += 1
        elif id(x) in cached or x is None:
            pass
        else:
            raise Violation('code object refers to %r' % (x,))
    return known + extra


def type_want(t, got):
    w = graph.refs(t)[1] if not t.__flags__ & graph.HEAPTYPE else gc.get_referents(t) + [t.__name__, t.__qualname__]
    wi = ids(w)
    out = list(w)
    extra = [x for x in got if id(x) not in wi]
    slots = t.__dict__.get('__slots__') if t.__flags__ & graph.HEAPTYPE else None
    subs = {id(c) for c in type.__subclasses__(t)}
    nsub = 0
    for x in extra:
        if type(x) is dict and all(type(k) is int for k in x) and {id(v()) for v in x.values() if v() is not None} == subs:
            nsub += 1
            out.append(x)
        elif type(x) is tuple and slots is not None and all(type(y) is str for y in x):
            out.append(x)
        elif type(x) is dict and not t.__flags__ & graph.HEAPTYPE and x == dict(t.__dict__):
            out.append(x)
        elif not t.__flags__ & graph.HEAPTYPE and type(x) is tuple and type(x[0]) is str:
            out.append(x)
    if nsub > 1 or (subs and not nsub):
        raise Violation('class %r: %d subclass tables among the referents, has %d subclasses' % (t, nsub, len(subs)))
    return out


def want_of(o, got, gens=()):
    ex, w = graph.refs(o)
    if ex:
        return w
    if type(o) is types.FrameType:
        return frame_want(o, gens)
    if type(o) is types.CodeType:
        return code_want(o, got)
    return type_want(o, got)


def gens_of(g):
    l = [o for o in g.nodes if type(o) is types.GeneratorType] + g.glob.get('keepgen', [])
    for o in l:
        o.gi_frame  # the frame object is made when first asked for
    return l


METAS = [type('Meta', (type,), {'__module__': 'gm'}), type('Meta2', (type,), {'__module__': 'gm', '__slots__': ()})]


def extra(k, g, x):
    if k == 'mcls':
        m = METAS[x % 2]
        return m('MC', (), {'__module__': 'gm'})
    if k == 'mobj':
        return type('Own%d' % x, (), {'__module__': 'gm', '__slots__': ('a', '__dict__', '__weakref__')[:x]})()
    return graph.N


KINDS = graph.SHELLS + graph.DERIVED + ['mcls', 'mobj']


def build(d):
    g = graph.build(d, extra)
    for (k, refs, x), o in zip(d['n'], g.nodes):
        if k == 'mcls':
            for m, j in enumerate(refs):
                setattr(o, graph.attrs(m % 12), g.nodes[j % len(g.nodes)])
        elif k == 'mobj' and x and refs:
            o.a = g.nodes[refs[0] % len(g.nodes)]
    return g


def gen_g(r, lo=2, hi=12):
    mode = r.random()
    kinds = graph.BASIC if mode < 0.2 else (KINDS if mode < 0.85 else r.sample(KINDS, 5))
    d = graph.gen_graph(r, lo, hi, kinds)
    return d


def gen_direct(r):
    return {'g': gen_g(r), 'sets': [pickset(r, 20, 1, 5) for _ in range(2)], 'w': r.pick('list', 'iter', 'imm', 'mut', 'tuple')}


def mk(how, objs):
    return list(objs) if how == 'list' else iter(objs) if how == 'iter' else immnodeset(objs) if how == 'imm' else mutnodeset(objs) if how == 'mut' else tuple(objs)


def ntriv(g, st, n=4):
    i = ids(g.nodes)
    e = sum(1 for o in g.nodes for x in gc.get_referents(o) if id(x) in i)
    st.nontrivial(len(g.nodes) >= n and e >= 3)


def run_direct(d, st):
    g = build(d['g'])
    names = Names(g)
    gens = gens_of(g)
    try:
        for o in g.nodes:
            got = list(HV.relimg([o]))
            w = want_of(o, got, gens)
            same(got, w, 'referents of %s' % names.of(o), names)
            st.label('kind ' + type(o).__name__)
            # the same through everything hanging off it, one level
            for x in got:
                if type(x) in (dict, types.CellType, types.CodeType, types.FunctionType, type) or isinstance(x, type):
                    g2 = list(HV.relimg([x]))
                    same(g2, want_of(x, g2, gens), 'referents of %s in %s' % (names.of(x), names.of(o)), names)
        for s in d['sets']:
            objs = [g.nodes[i % len(g.nodes)] for i in s]
            got = HV.relimg(mk(d['w'], objs))
            w = []
            for o in objs:
                w += want_of(o, got, gens) if graph.refs(o)[0] else list(HV.relimg([o]))
            same(got, w, 'referents of a set', names)
            check(len(got) == len(list(got)) == len(ids(got)), 'an object is reported twice')
        ntriv(g, st)
    finally:
        g.clear()


def ref_fun(gens):
    def ref(o):
        ex, w = graph.refs(o)
        if ex:
            return w
        prime(o)
        return want_of(o, list(HV.relimg([o])), gens)
    return ref


def gen_reach(r):
    n = 14
    return {'g': gen_g(r, 3, n), 'start': pickset(r, n, 0, 3), 'avoid': pickset(r, n, 0, 4), 'inner': r.chance(0.25), 'types': r.chance(0.2)}


def run_reach(d, st):
    g = build(d['g'])
    names = Names(g)
    gens = gens_of(g)
    n = len(g.nodes)
    ref = ref_fun(gens)
    try:
        start = [g.nodes[i % n] for i in d['start']]
        avoid = [g.nodes[i % n] for i in d['avoid']]
        if d['inner']:
            for o in list(avoid):
                avoid += [x for x in gc.get_referents(o) if x is not None][:2]
        if d['types']:
            avoid += [type(o) for o in g.nodes] + [g.glob]
        av = ids(avoid)
        w = graph.closure(start, ref, av)
        got = HV.reachable(immnodeset(start), immnodeset(avoid))
        same(got, w, 'reachable', names)
        wx = dict(w)
        for o in start:
            wx[id(o)] = o
        for o in w.values():
            for x in ref(o):
                wx[id(x)] = x
        got = HV.reachable_x(mutnodeset(start), mutnodeset(avoid))
        same(got, wx, 'reachable_x', names)
        check(len(got) == len(list(got)), 'length of the result')
        ni = ids(g.nodes)
        st.nontrivial(sum(1 for i in w if i in ni) >= 4 or bool(av & set(wx)))
    finally:
        g.clear()


def gen_heap(r):
    return {'g': gen_g(r, 2, 14), 'roots': pickset(r, 14, 1, 4), 'rootkind': r.randrange(4), 'mut': [[r.randrange(14), r.randrange(14), r.randrange(5)] for _ in range(r.randint(0, 4))],
            'front': r.chance(0.25)}


def mutate(g, m):
    a, b, k = m
    a, b = g.nodes[a % len(g.nodes)], g.nodes[b % len(g.nodes)]
    try:
        if k == 0:
            if type(a) is list:
                a.append(b)
            elif type(a) in (dict,):
                a[len(a)] = b
            else:
                a.z = b
        elif k == 1:
            if type(a) is list:
                del a[:1]
            elif type(a) is dict:
                a.popitem()
            else:
                del a.a
        elif k == 2:
            if type(a) is not types.FrameType:
                a.clear()
        elif k == 3:
            a.add(b)
        else:
            a.__dict__ = {'q': b}
    except (AttributeError, TypeError, KeyError):
        return


def run_heap(d, st):
    g = build(d['g'])
    names = Names(g)
    gens = gens_of(g)
    n = len(g.nodes)
    ref = ref_fun(gens)
    try:
        rs = [g.nodes[i % n] for i in d['roots']]
        root = rs if d['rootkind'] == 0 else tuple(rs) if d['rootkind'] == 1 else {i: o for i, o in enumerate(rs)} if d['rootkind'] == 2 else rs[0]
        hv = view(root)
        for step in range(2):
            for o in g.nodes:
                if type(o).__flags__ & graph.MANAGED_DICT:
                    o.__dict__
            w = graph.closure([root], ref)
            same(hv.heap(), w, 'heap()' + ' after changes' * step, names)
            if d['front']:
                h = hp()
                with rooted(h, root):
                    got = h.heap()
                    same(got.nodes, graph.closure([root], ref), 'session heap()' + ' after changes' * step, names)
                    x = h.idset(rs)
                    wr = {}
                    for o in rs:
                        for y in ref(o):
                            wr[id(y)] = y
                    wr.pop(id(None), None)
                    gr = x.referents
                    same([y for y in gr.nodes if y is not None], wr, 'session referents', names)
                    del got, x, gr
                    st.label('session')
            if not step:
                for m in d['mut']:
                    mutate(g, m)
        ni = ids(g.nodes)
        st.nontrivial(sum(1 for i in w if i in ni) >= 4)
    finally:
        g.clear()


FACETS = {
    'direct': (4, gen_direct, run_direct),
    'reach': (3, gen_reach, run_reach),
    'heap': (3, gen_heap, run_heap),
}
