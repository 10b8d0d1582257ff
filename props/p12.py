"""P12: dominated sets against the model closure and against really deleting the objects."""
import gc
import types
import weakref
from props.hpy import *
from props import graph, p07, p10

SPEC = dict(
    id='P12', quick=4000, thorough=120000,
    rule='A case is a generated object graph below a root with one or several target sets; dominated sets, their sizes and the immediate dominators are compared with the model closure; in one facet the targets are really '
         'deleted and the objects that die are compared with the set predicted. Non-trivial: some target is reachable, its dominated set has at least 2 generated nodes more than the target, or is smaller than what the target reaches.',
    assumptions=['objects are freed by reference counting and garbage collection; None and objects shared with the interpreter never die'])


def setup():
    gc.disable()
    graph.strip_modules()
    p07.setup()


def densify(r, g, p=0.6):
    ns = g['n']
    for i in range(1, len(ns)):
        if r.chance(p):
            ns[r.randrange(max(0, i - 4), i)][1].append(i)
    return g


def gen_dom(r):
    g = densify(r, p07.gen_g(r, 3, 12))
    return {'g': g, 'roots': pickset(r, r.pick(1, 2, 12), 1, 3), 't': [p10.gen_sel(r, 3) for _ in range(r.pick(1, 1, 1, 2, 3))], 'rootin': r.chance(0.1)}


def run_dom(d, st):
    g = p07.build(d['g'])
    names = Names(g)
    gens = p07.gens_of(g)
    ref0 = p07.ref_fun(gens)
    cache = {}

    def ref(o):
        r = cache.get(id(o))
        if r is None:
            r = cache[id(o)] = (ref0(o), o)
        return r[0]
    n = len(g.nodes)
    h = hp()
    V = h.View
    old = V.root
    try:
        root = [g.nodes[i % n] for i in d['roots']]
        names[id(root)] = 'root'
        V.root = root
        w = graph.closure([root], ref)
        allw = graph.closure([root] + g.nodes, ref)
        T = [p10.pick_targets(g, s, w) for s in d['t']]
        if d['rootin']:
            T[0].append(root)
        D = [x for t in T for x in t]
        # dominated: reached from the set but from nothing else without it
        for t in T:
            x = h.iso(*t)
            before = graph.closure([root], ref, ids(t))
            want = {i: o for i, o in graph.closure(t, ref).items() if i not in before}
            got = x.dominos
            same(got.nodes, want, 'dominated set', names)
            check(ids(t) <= ids(got.nodes), 'a target is not in its dominated set')
            sz = x.domisize
            eq(sz, sum(V.hv.indisize_sum([o]) for o in want.values()), 'dominated size')
            eq(got.size, sz, 'size of the dominated set')
            ni = ids(g.nodes)
            reached = graph.closure(t, ref)
            st.nontrivial(any(id(o) in w for o in t) and (sum(1 for i in want if i in ni) >= 2 + len(ids(t)) or any(i in ni and i not in want for i in reached)))
            # immediate dominators: the referrers reached without another referrer
            inv = p10.inverse(w, ref)
            pred = {}
            for o in t:
                pred.update(inv.get(id(o), {}))
            for o in t:
                if o is root:
                    pred = None
            if pred is not None:
                pi = set(pred)
                inner = graph.closure([root], ref, pi)
                reach = dict(inner)
                reach[id(root)] = root
                for o in inner.values():
                    for y in ref(o):
                        reach[id(y)] = y
                wi = {i: o for i, o in pred.items() if i in reach and o is not None}
                same([y for y in x.imdom.nodes if y is not None], wi, 'immediate dominators', names)
                st.label('imdom %d' % min(5, len(wi)))
        if len(T) > 1:
            sets = tuple(h.iso(*t) for t in T)
            got = V.dominos_tuple(sets)
            check(len(got) == len(T), 'number of results')
            sizes = V.domisize_tuple(sets)
            for t, x, s in zip(T, got, sizes):
                ti = ids(t)
                others = graph.closure([root] + [o for o in D if id(o) not in ti], ref, ti)
                want = {i: o for i, o in graph.closure(t, ref).items() if i not in others}
                same(x.nodes, want, 'dominated set of one of several', names)
                eq(s, sum(V.hv.indisize_sum([o]) for o in want.values()), 'dominated size of one of several')
    finally:
        V.root = old
        g.clear()


class OWn:
    pass


OWn.__module__ = 'gm'
WK = ['obj', 'list', 'dict', 'set', 'slots']


def gen_real(r):
    n = r.randint(3, 12)
    nodes = [[r.choice(WK), [r.randrange(n) for _ in range(r.randint(0, 3))]] for _ in range(n)]
    for i in range(1, n):
        if r.chance(0.6):
            nodes[r.randrange(max(0, i - 4), i)][1].append(i)
    return {'n': nodes, 'roots': pickset(r, r.pick(1, 2, 12), 1, 3), 't': pickset(r, 12, 1, 3), 'xd': r.chance(0.3)}


class WObj:
    pass


class WList(list):
    __hash__ = object.__hash__


class WDict(dict):
    __hash__ = object.__hash__


class WSet(set):
    __hash__ = object.__hash__


class WSlots:
    __slots__ = 'a', 'b', 'c', 'd', '__weakref__'


TYPES = {'obj': WObj, 'list': WList, 'dict': WDict, 'set': WSet, 'slots': WSlots}


def put(o, m, y):
    if type(o) is WObj:
        setattr(o, graph.attrs(m % 12), y)
    elif type(o) is WList:
        o.append(y)
    elif type(o) is WDict:
        o['k%d' % m] = y
    elif type(o) is WSet:
        o.add(y)
    else:
        setattr(o, 'abcd'[m % 4], y)


def forget(o, dead):
    """remove the references of o to objects with ids in dead"""
    if type(o) is WObj:
        for k in [k for k, v in o.__dict__.items() if id(v) in dead]:
            delattr(o, k)
    elif type(o) is WList or type(o) is list:
        o[:] = [x for x in o if id(x) not in dead]
    elif type(o) is WDict:
        for k in [k for k, v in o.items() if id(v) in dead]:
            del o[k]
    elif type(o) is WSet:
        for x in [x for x in o if id(x) in dead]:
            o.discard(x)
    else:
        for k in 'abcd':
            if id(getattr(o, k, None)) in dead:
                delattr(o, k)


def run_real(d, st):
    h = hp()
    V = h.View
    old = V.root
    n = len(d['n'])
    nodes = [TYPES[k]() for k, _ in d['n']]
    for o, (k, refs) in zip(nodes, d['n']):
        for m, j in enumerate(refs):
            put(o, m, nodes[j % n])
    root = [nodes[i % n] for i in d['roots']]
    try:
        V.root = root
        t = [nodes[i % n] for i in d['t']]
        heap = ids(h.heap().nodes)
        dom = h.iso(*t).dominos
        pred = {i for i, o in enumerate(nodes) if o in dom.nodes}
        cand = [i for i, o in enumerate(nodes) if id(o) in heap or i in pred]
        del dom
        V.clear_retainers()
        wr = [weakref.ref(o) for o in nodes]
        dead = ids(t)
        inheap = any(id(o) in heap for o in t)
        # what the rest of the heap refers to is kept by the root; delete the targets from it
        del t
        for o in nodes:
            forget(o, dead)
        forget(root, dead)
        o = None
        del nodes
        gc.collect()
        died = {i for i in cand if wr[i]() is None}
        if died != pred & set(cand):
            raise Violation('deleting nodes %s: nodes %s died, the dominated set was %s' % (sorted({i % n for i in d['t']}), sorted(died), sorted(pred)))
        st.nontrivial(inheap and len(died) > len(set(i % n for i in d['t'])))
    finally:
        V.root = old
        del root[:]
        gc.collect()


FACETS = {
    'dom': (5, gen_dom, run_dom),
    'real': (2, gen_real, run_real),
}
