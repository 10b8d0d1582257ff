"""P10: referrers are the inverse of references, whatever happened before."""
import gc
import types
from props.hpy import *
from props import graph, p07
from guppy.heapy.UniSet import IdentitySet

SPEC = dict(
    id='P10', quick=5000, thorough=150000,
    rule='A case is a generated object graph below a root container with either one direct computation of the referrer graph for a target set, or a history of referrer queries (node sets, single objects, '
         'unreachable objects, kept result objects), reference changes, collections and root changes in a session; every answer is compared with the inverse of the reference relation from the model closure. '
         'Non-trivial: at least 2 answers were non-empty and some target had 2 or more referrers.',
    assumptions=['the session may answer from its cache until the next garbage collection (heap() performs one), so changed references are only asked about after a collection',
                 'edges that lead to the root container itself are not part of the relation'])


def setup():
    gc.disable()
    graph.strip_modules()
    p07.setup()


def inverse(w, ref):
    inv = {}
    for o in w.values():
        for x in ref(o):
            inv.setdefault(id(x), {})[id(o)] = o
    return inv


def pick_targets(g, sel, w):
    """sel: [[kind, i], ...]; objects of the case: nodes, things inside nodes, anything reachable"""
    out = []
    wl = None
    for k, i in sel:
        o = g.nodes[i % len(g.nodes)]
        if k == 1:
            l = [x for x in gc.get_referents(o) if x is not None]
            o = l[(i // len(g.nodes)) % len(l)] if l else o
        elif k == 2:
            if wl is None:
                wl = sorted(w.values(), key=lambda x: type(x).__name__)
            o = wl[i % len(wl)]
        elif k == 3:
            o = type(o)
        elif k == 4:
            o = [None, 0, 1, '', (), True][i % 6]
        out.append(o)
    return out


def gen_sel(r, hi=5):
    return [[r.weighted([(10, 0), (4, 1), (2, 2), (1, 3), (1, 4)]), r.randrange(2000)] for _ in range(r.randint(1, hi))]


def gen_low(r):
    return {'g': p07.gen_g(r, 2, 12), 'roots': pickset(r, 14, 1, 4), 't': gen_sel(r), 't2': gen_sel(r) if r.chance(0.4) else []}


def run_low(d, st):
    g = p07.build(d['g'])
    names = Names(g)
    gens = p07.gens_of(g)
    ref = p07.ref_fun(gens)
    n = len(g.nodes)
    try:
        root = [g.nodes[i % n] for i in d['roots']]
        names[id(root)] = 'root'
        hv = view(root)
        w = graph.closure([root], ref)
        T = [x for x in pick_targets(g, d['t'], w) if x is not root]
        T2 = [x for x in pick_targets(g, d['t2'], w) if x is not root]
        skip = ids((root,))
        rg = NodeGraph()
        inv = None
        for X in (T, T2):
            if not X and X is T2:
                break
            if X is T2:
                X = T + T2
                rg.clear()
            w = graph.closure([root], ref)
            inv = inverse(w, ref)
            x = mutnodeset(X)
            hv.update_referrers(rg, x)
            same(x, X, 'the target set after the call', names)
            for t in X:
                same(list(rg[t]), inv.get(id(t), {}), 'referrers of %s' % names.of(t), names)
            # every node on a path from the root to a target is there, with its edges; nothing else is wrong
            # (objects made or released by the computation itself aside)
            up = graph.closure(X, lambda o: inv.get(id(o), {}).values())
            dom = {id(o): o for o in rg.get_domain()}
            for i, o in up.items():
                if o is root or i not in w:
                    continue
                check(i in dom, '%s leads to a target but has no referrers in the graph', names.of(o))
            for i, o in dom.items():
                same(list(rg[o]), inv.get(i, {}), 'referrers of %s on the way' % names.of(o), names)
        st.nontrivial(any(len(inv.get(id(t), ())) > 1 for t in T) and sum(1 for t in T + T2 if inv.get(id(t))) >= 2)
    finally:
        g.clear()


OPS = [(8, 'q'), (3, 'q1'), (4, 'mut'), (2, 'gc'), (2, 'drop'), (2, 'add'), (2, 'keep'), (1, 'root'), (1, 'heap'), (1, 'clear'), (1, 'many'), (1, 'hold')]


def gen_hist(r):
    ops = []
    for _ in range(r.randint(2, 12)):
        op = r.weighted(OPS)
        if op in ('q', 'many', 'hold'):
            ops.append([op, gen_sel(r, 4)])
        elif op == 'q1':
            ops.append([op, gen_sel(r, 1)])
        elif op == 'mut':
            ops.append([op, [r.randrange(14), r.randrange(14), r.randrange(5)]])
        else:
            ops.append([op, r.randrange(20)])
    return {'g': p07.gen_g(r, 2, 10), 'roots': pickset(r, 14, 1, 4), 'ops': ops, 'alt': pickset(r, 14, 1, 3)}


HIDDEN = (IdentitySet,)


def run_hist(d, st):
    g = p07.build(d['g'])
    names = Names(g)
    gens = p07.gens_of(g)
    ref0 = p07.ref_fun(gens)

    def ref(o):
        return () if isinstance(o, HIDDEN) else ref0(o)
    n = len(g.nodes)
    h = hp()
    V = h.View
    root = [g.nodes[i % n] for i in d['roots']]
    alt = [g.nodes[i % n] for i in d['alt']]
    kept = []
    old = V.root
    answers = big = 0
    try:
        V.root = root
        dirty = False
        cur = root
        inv = None

        def model():
            for o in g.nodes:
                if type(o).__flags__ & graph.MANAGED_DICT:
                    o.__dict__
            w = graph.closure([cur], ref)
            for i in [i for i, o in w.items() if isinstance(o, HIDDEN)]:
                del w[i]
            return w, inverse(w, ref)

        def compare(X, got, what):
            nonlocal answers, big
            want = {}
            for t in X:
                want.update(inv.get(id(t), {}))
            want.pop(id(None), None)
            same(got.nodes, want, what, names)
            answers += bool(want)
            big += len(want) > 1
        for op, a in d['ops']:
            if op == 'mut':
                p07.mutate(g, a)
                dirty = True
            elif op == 'gc':
                gc.collect()
                dirty = False
            elif op == 'heap':
                gc.collect()
                w, inv = model()
                x = h.heap()
                dirty = False
                same(x.nodes, w, 'heap()', names)
                del x
            elif op == 'drop':
                if cur and type(cur) is list:
                    del cur[a % len(cur)]
                    dirty = True
            elif op == 'add':
                cur.append(g.nodes[a % n])
                dirty = True
            elif op == 'keep':
                # a session's own objects held by the heap do not count
                cur.append(h.iso(g.nodes[a % n]))
                dirty = True
            elif op == 'root':
                cur = alt if cur is root else root
                V.root = cur
                dirty = False
            elif op == 'clear':
                V.clear_retainers()
                dirty = False
            else:
                if dirty:
                    gc.collect()
                    dirty = False
                w, inv = model()
                X = [x for x in pick_targets(g, a, w) if x is not root and x is not alt and not isinstance(x, HIDDEN)]
                if not X:
                    continue
                if op == 'q':
                    compare(X, h.iso(*X).referrers, 'referrers of a set')
                elif op == 'q1':
                    compare(X[:1], V.referrers(V.immnodeset(X[:1])), 'referrers of an object')
                elif op == 'hold':
                    s = h.iso(*X)
                    kept.append(s)
                    compare(X, s.referrers, 'referrers of a kept set')
                else:
                    # one at a time, then together, then one at a time
                    for x in X:
                        compare([x], h.iso(x).referrers, 'referrers of %s' % names.of(x))
                    compare(X, V.referrers(V.immnodeset(X)), 'referrers of them together')
                    V.update_referrers(h.iso(*X))
                    for x in reversed(X):
                        compare([x], h.iso(x).referrers, 'referrers of %s again' % names.of(x))
        st.nontrivial(answers >= 2 and big >= 1)
        for o in d['ops']:
            st.label('op ' + o[0])
    finally:
        V.root = old
        del kept, root[:], alt[:]
        g.clear()


LIVE = None


def gen_live(r):
    return {'g': p07.gen_g(r, 2, 8), 'roots': pickset(r, 14, 1, 3), 't': gen_sel(r, 4), 'm': [r.randrange(14), r.randrange(14), r.randrange(5)]}


def live_one(h, W, t, T, g, names):
    hv = h.View.hv
    got = h.iso(t).referrers
    fr = types.FrameType
    # inverse by asking the forward direction of every candidate
    want = {}
    for o in gc.get_referrers(t):
        if o is not T and type(o) is not fr and o in W.nodes and t in hv.relimg([o]):
            want[id(o)] = o
    same([o for o in got.nodes if type(o) is not fr and o is not T], want, 'referrers of %s in the process' % names.of(t), names,
         optional=[x for x in got.nodes if x is g.nodes or type(x) is types.CodeType or isinstance(x, type)])
    for o in got.nodes:
        check(t in hv.relimg([o]), '%s is listed as a referrer of %s', names.of(o), names.of(t))
    return len(want)


def run_live(d, st):
    """the whole process as the heap"""
    global LIVE
    g = p07.build(d['g'])
    names = Names(g)
    h = hp()
    n = len(g.nodes)
    try:
        LIVE = [g.nodes[i % n] for i in d['roots']]
        names[id(LIVE)] = 'LIVE'
        h.heap()
        T = []
        for x in pick_targets(g, [s for s in d['t'] if s[0] in (0, 1)], {}):
            if not isinstance(x, type) and type(x) not in (int, str, bool, types.CodeType, types.FrameType, types.FunctionType) and x is not g.nodes and x is not g.glob:
                T.append(x)
        T = [x for x in T if type(x) is not types.ModuleType]
        for step in range(2):
            W = h.heap()
            for t in T:
                # untracked objects may be held by untracked containers, which gc.get_referrers does not search
                if not gc.is_tracked(t):
                    continue
                st.nontrivial(live_one(h, W, t, T, g, names) > 1)
            p07.mutate(g, d['m'])
            del W
    finally:
        LIVE = None
        g.clear()


FACETS = {
    'low': (6, gen_low, run_low),
    'hist': (6, gen_hist, run_hist),
    'live': (0.1, gen_live, run_live),
}
