"""P11: shortest paths against a breadth first search of the model."""
import collections
import gc
import itertools
import types
from props.hpy import *
from props import graph, p07, p09, p10

SPEC = dict(
    id='P11', quick=4500, thorough=120000,
    rule='A case is a generated object graph with source, destination and avoided sets, avoided edges, and a list of accesses to the result (indexes, ranges, printing, further paths avoiding levels); the listed chains are '
         "compared with those of a breadth first search over the interpreter's references times the number of relations of each step, and every step and expression is carried out. "
         'Non-trivial: at least 2 different paths, one of them of 2 or more steps.',
    assumptions=['destinations that are sources are not reached (distance 0 is not listed); of a destination set only the nearest members are listed'])


def setup():
    gc.disable()
    graph.strip_modules()
    p07.setup()


KINDS = ['list', 'dict', 'tuple', 'obj', 'slots', 'listsub', 'dictsub', 'cell', 'func', 'kdict', 'set', 'frozenset', 'method', 'deque', 'module', 'cls', 'prop', 'partial', 'slotdict', 'tuplesub', 'frame', 'tb']


def gen_paths(r):
    mode = r.random()
    kinds = ['list'] if mode < 0.15 else ['list', 'dict', 'tuple', 'obj'] if mode < 0.4 else KINDS if mode < 0.8 else r.sample(KINDS, 5)
    g = graph.gen_graph(r, 2, 12, kinds, r.pick(2, 3, 4, 6))
    pick = lambda: r.randrange(14)
    # most nodes are referred to from earlier ones
    ns = g['n']
    for i in range(1, len(ns)):
        if r.chance(0.7):
            for _ in range(r.pick(1, 1, 2)):
                ns[r.randrange(max(0, i - 4), i)][1].append(i)
    d = {'g': g, 'roots': pickset(r, r.pick(1, 2, 14), 1, 3), 'src': None if r.chance(0.3) else pickset(r, r.pick(1, 2, 14), 0 if r.chance(0.1) else 1, 3),
         'dst': [p10.gen_sel(r, 3) if r.chance(0.4) else [[5, r.randrange(5)] for _ in range(r.randint(1, 2))] for _ in range(1 if r.chance(0.7) else r.randint(1, 3))],
         'avoid': None if r.chance(0.6) else pickset(r, 14, 0, 3), 'edges': [] if r.chance(0.6) else [[pick(), r.randrange(6)] for _ in range(r.randint(1, 4))],
         'keys': [[pick(), r.randrange(8)] for _ in range(r.randint(0, 2))],
         'acc': [[r.pick('idx', 'neg', 'range', 'print', 'more', 'avoid', 'in', 'out', 'num', 'max'), r.randrange(40), r.randrange(12)] for _ in range(r.randint(0, 4))]}
    return d


WEIRD = ['100%', '%s', '%d%%', 'a b', "q'\"", 5.5, (1, '%r'), None]


class M:
    """breadth first search of the model"""

    def __init__(self, srcs, dsts, ref, avoid, avedges, pathlen=0):
        av = ids(avoid)
        ae = {(id(u), id(v)) for u, v in avedges}
        U = {id(o): o for o in srcs if id(o) not in av}
        seen = set(av)
        pred = {}
        self.obj = dict(U)
        self.near = [None] * len(dsts)
        self.level = [None] * len(dsts)
        k = 0
        while U and any(x is None for x in self.near):
            seen |= set(U)
            V = {}
            for i, u in U.items():
                for v in ref(u):
                    if id(v) in seen or (i, id(v)) in ae:
                        continue
                    V[id(v)] = v
                    pred.setdefault(id(v), {})[i] = u
            k += 1
            self.obj.update(V)
            for j, D in enumerate(dsts):
                if self.near[j] is None:
                    n = {id(o): o for o in D if id(o) in V}
                    if n:
                        self.near[j] = n
                        self.level[j] = k
            U = V
        self.pred = pred

    def chains(self, j, nrel, limit):
        """Counter: chain of ids -> number of paths; or None if there are more than limit chains"""
        out = collections.Counter()
        todo = [((i,), 1) for i in self.near[j] or ()]
        for _ in range(self.level[j] or 0):
            nxt = []
            for c, m in todo:
                for u in self.pred[c[0]].values():
                    nxt.append(((id(u),) + c, m * nrel(u, self.obj[c[0]])))
            todo = nxt
            if len(todo) > limit:
                return None
        for c, m in todo:
            out[c] += m
        return out

    def total(self, j, nrel):
        memo = {}
        layer = dict(self.near[j] or {})
        cnt = {i: 1 for i in layer}
        for _ in range(self.level[j] or 0):
            c2 = collections.Counter()
            for i, m in cnt.items():
                for u in self.pred[i].values():
                    c2[id(u)] += m * nrel(u, self.obj[i])
            cnt = c2
        return sum(cnt.values())


def by_distance(g, srcs, ref):
    """the nodes, farthest first"""
    dist = {id(o): 0 for o in srcs}
    todo = list(srcs)
    for o in todo:
        for x in ref(o):
            if id(x) not in dist:
                dist[id(x)] = dist[id(o)] + 1
                todo.append(x)
    return sorted(g.nodes, key=lambda o: -dist.get(id(o), -1))


EVAL = {1, 2, 3, 5, 9}


def check_path(p, hv, names, st):
    """one listed path: returns its chain and relations"""
    els = p.path
    nodes = [x.theone for x in els[0::2]]
    rels = els[1::2]
    check(len(p) == len(rels) == len(nodes) - 1, 'path length %d, elements %d', len(p), len(els))
    check(p.src.theone is nodes[0] and p.tgt.theone is nodes[-1], 'source or target of a path')
    ok = True
    for u, r, v in zip(nodes, rels, nodes[1:]):
        if r.code == -1:
            ok = False
            continue
        if r.code not in EVAL:
            ok = False
        if r.code == 1 and not (type(r.r) is str and r.r.isidentifier()):
            ok = False
        if r.code == 2 and type(r.r) not in (int, str, float, tuple, type(None)):
            ok = False
        if isinstance(u, type) and r.r == '__dict__' or r.code == 4:
            ok = False
        if not p09.carry_out(r.code, r.r, u, v, hv, names):
            raise Violation('step %d %.60r of a path does not lead from %s to %s' % (r.code, r.r, names.of(u), names.of(v)))
    if ok:
        s = 'X'
        for r in rels:
            t = r.stra('\0', safe=False)
            if '.keys()[' in t:
                a, b = t.split('.keys()[', 1)
                t = 'list(%s.keys())[%s' % (a, b)
            s = t.replace('\0', s)
        txt = p.stra(safe=False, src='X') if hasattr(p.stra, 'x') else p.stra(safe=False)
        want = '%s'
        for r in rels:
            want = r.stra(want, safe=False)
        eq(txt, want, 'text of a path')
        try:
            v = eval(s, {'X': nodes[0], 'list': list})
        except Exception as e:
            raise Violation('path expression %r from %s: %r' % (s, names.of(nodes[0]), e))
        if v is not nodes[-1]:
            raise Violation('path expression %r from %s gives %s instead of %s' % (s, names.of(nodes[0]), names.of(v), names.of(nodes[-1])))
        st.label('expressions evaluated')
    return tuple(map(id, nodes)), tuple((r.code, r.r if type(r.r) in (int, str) else id(r.r)) for r in rels)


LIMIT = 400


def compare(paths, m, j, nrel, hv, names, st, what):
    """returns the listing, or None if too long"""
    total = m.total(j, nrel)
    near = m.near[j] or {}
    same(paths.Dst.nodes, near, what + ': destinations reached', names)
    if total > LIMIT:
        eq(paths.numpaths, total, '%s: number of paths', what)
        st.label('long listings')
        L = None
        seen = set()
        for p in itertools.islice(paths, 30):
            seen.add(check_path(p, hv, names, st))
        check(len(seen) == 30, '%s: a path is listed twice', what)
        return None
    want = m.chains(j, nrel, 10 ** 6)
    L = list(paths)
    got = collections.Counter()
    seen = set()
    for p in L:
        c = check_path(p, hv, names, st)
        if c in seen:
            raise Violation('%s: path %s is listed twice' % (what, p))
        seen.add(c)
        got[c[0]] += 1
    if got != want:
        miss = want - got
        extra = got - want
        show = lambda cs: [' -> '.join(names.of(m.obj[i]) if i in m.obj else '?' for i in c) for c in list(cs)[:2]]
        raise Violation('%s: missing %s, unexpected %s (%d listed, want %d)' % (what, show(miss), show(extra), len(L), total))
    eq(len(L), total, '%s: number of paths listed', what)
    eq(paths.numpaths, total, '%s: number of paths', what)
    return L


def text_lines(paths, L):
    return ['%2d: %s' % (p.index, p.stra().replace('%s', '\1', 1)) for p in L]


def check_print(paths, L, mx, more):
    """every path on one line, in order, a page at a time"""
    paths.maxpaths = mx
    s = str(paths)
    pages = [s]
    x = paths
    n = 0
    while more and 'more paths' in s and n < 60:
        x = x.more
        s = str(x)
        pages.append(s)
        n += 1
    lines = []
    for i, pg in enumerate(pages):
        l = pg.split('\n')
        if l and l[-1].startswith('<...'):
            rest = len(L) - len(lines) - (len(l) - 1)
            eq(l[-1], '<... %d more paths ...>' % rest, 'remaining paths announced')
            l.pop()
            check(len(l) == mx, '%d paths on a page of %d', len(l), mx)
        else:
            check(len(l) <= mx + 1, '%d paths on a page of %d', len(l), mx)
        lines += l
    src = L[0].srcname
    want = []
    for p in L:
        t = p.srcname
        for r in p.path[1::2]:
            t = r.stra(t)
        want += ('%2d: %s' % (p.index, t)).split('\n')
    if more:
        eq(lines, want, 'printed paths')
    else:
        eq(lines, want[:len(lines)], 'printed paths')


def run_paths(d, st):
    g = p07.build(d['g'])
    names = Names(g)
    gens = p07.gens_of(g)
    ref0 = p07.ref_fun(gens)
    cache = {}

    def ref(o):
        # the relation of an object is fixed during a case
        r = cache.get(id(o))
        if r is None:
            r = cache[id(o)] = (list({id(x): x for x in ref0(o)}.values()), o)
        return r[0]
    n = len(g.nodes)
    h = hp()
    P = h._parent.Path
    hv = h.View.hv
    old = h.View.root
    for i, k in d['keys']:
        o = g.nodes[i % n]
        if type(o) is dict:
            o[WEIRD[k]] = g.nodes[(i + k) % n]
        elif hasattr(o, '__dict__') and type(WEIRD[k]) is str and not isinstance(o, type) and type(o) is not types.FunctionType:
            try:
                setattr(o, WEIRD[k], g.nodes[(i + k) % n])
            except (AttributeError, TypeError):
                pass
    relcount = {}

    def nrel(u, v):
        k = (id(u), id(v))
        if k not in relcount:
            relcount[k] = sum(map(len, hv.relate(u, v))) or 1
        return relcount[k]
    try:
        root = [g.nodes[i % n] for i in d['roots']]
        names[id(root)] = 'root'
        h.View.root = root
        # the mapping of the variables of a frame is made, and kept by the frame, when first asked for
        for o in list(graph.closure([root] + g.nodes, ref0).values()):
            if type(o) is types.FrameType:
                o.f_locals
        w = graph.closure([root] + g.nodes, ref)
        srcs = [root] if d['src'] is None else [g.nodes[i % n] for i in d['src']]
        far = None
        dsts = []
        for s in d['dst']:
            if s and s[0][0] == 5:
                if far is None:
                    far = by_distance(g, srcs, ref)
                dsts.append([far[i % min(3, len(far))] for _, i in s])
            else:
                dsts.append(p10.pick_targets(g, s, w))
        avoid = [g.nodes[i % n] for i in d['avoid'] or ()]
        edges = []
        for i, k in d['edges']:
            o = g.nodes[i % n]
            rs = ref(o)
            edges.append((o, rs[k % len(rs)] if rs and k < 5 else g.nodes[k % n]))
        m = M(srcs, dsts, ref, avoid, edges)
        src = None if d['src'] is None else h.iso(*srcs)
        av = None if d['avoid'] is None else h.iso(*avoid)
        dd = [h.iso(*x) for x in dsts]
        if len(dd) == 1:
            allp = [dd[0].get_shpaths(src, av, edges)]
        else:
            gr = P.shpgraph([x.nodes for x in dd], src, av, edges)
            check(len(gr) == len(dd), 'number of results')
            allp = list(gr)
        for j, paths in enumerate(allp):
            L = compare(paths, m, j, nrel, hv, names, st, 'paths')
            st.nontrivial((m.level[j] or 0) >= 2 and paths.numpaths >= 2)
            st.label('length %d' % (m.level[j] or 0))
            num = paths.numpaths
            for op, a, b in d['acc']:
                st.label('access ' + op)
                if op == 'num':
                    eq(paths.numpaths, num, 'number of paths asked again')
                elif op in ('idx', 'neg'):
                    i = a if op == 'idx' else -1 - a
                    if L is None and op == 'idx':
                        i = (a * 2654435761) % num
                        p = paths[i]
                        check_path(p, hv, names, st)
                        eq(p.index, i, 'index of a path')
                    elif -num <= i < num:
                        p = paths[i]
                        if L is not None:
                            eq(str(p), str(L[i]), 'path at index %d', i)
                            check(p.index == i % num, 'index of a path')
                        else:
                            check_path(p, hv, names, st)
                    else:
                        raises(IndexError, lambda: paths[i])
                elif op == 'range' and L is not None:
                    got = [str(p) for p in paths.iter(a, a + b)]
                    eq(got, [str(p) for p in L[a:a + b]], 'paths %d to %d', a, a + b)
                elif op in ('print', 'more') and L:
                    check_print(paths, L, 1 + b, op == 'more')
                elif op == 'max' and L:
                    paths.maxpaths = 1 + b
                    eq(paths.maxpaths, 1 + b, 'maxpaths')
                elif op == 'avoid' and m.level[j]:
                    lev = m.level[j]
                    cols = sorted({a % lev, (a + b) % lev})
                    # the edges at those levels
                    layer = dict(m.near[j])
                    es = list(edges)
                    first = None
                    for k in range(lev - 1, -1, -1):
                        up = {}
                        for i, v in layer.items():
                            for u in m.pred[i].values():
                                up[id(u)] = u
                                if k in cols:
                                    es.append((u, v))
                        layer = up
                    m2 = M(layer.values(), [m.near[j].values()], ref, avoid, es)
                    p2 = paths.avoided(*cols)
                    compare(p2, m2, 0, nrel, hv, names, st, 'paths avoiding levels %s' % cols)
                elif op == 'out' and d['src'] is not None and j == 0:
                    x = h.iso(*srcs)
                    D = [y for o in srcs for y in ref(o) if y is not None]
                    m2 = M(srcs, [x.referents.nodes], ref, (), ())
                    compare(x.pathsout, m2, 0, nrel, hv, names, st, 'pathsout')
                elif op == 'in' and j == 0:
                    x = dd[0]
                    m2 = M(x.referrers.nodes, [x.nodes], ref, (), ())
                    compare(x.pathsin, m2, 0, nrel, hv, names, st, 'pathsin')
    finally:
        h.View.root = old
        g.clear()


def gen_big(r):
    return {'k': r.pick('grid', 'chain'), 'a': r.randint(1, 4), 'b': r.pick(3, 10, 60, 300, 1500) , 'i': r.getrandbits(40)}


def run_big(d, st):
    """many or long paths: counts and random access"""
    h = hp()
    dst = []
    a, b = d['a'], d['b']
    if d['k'] == 'chain':
        x = dst
        for _ in range(b):
            x = [x] * a
        src = x
    else:
        b = min(b, 60)
        layer = [dst] * a
        for _ in range(b - 1):
            layer = [list(layer) for _ in range(a)]
        src = list(layer)
    p = h.iso(dst).get_shpaths(h.iso(src))
    total = a ** b
    eq(p.numpaths, total, 'number of paths')
    i = d['i'] % total
    q = p[i]
    if total > 1:
        eq(q.index, i, 'index')
    # the i-th path in the order of indexes
    digits = []
    for _ in range(b):
        digits.append(i % a)
        i //= a
    got = [x.r for x in q.path[1::2]]
    eq(got, digits[::-1], 'indexes along the path') if d['k'] == 'chain' or a == 1 else None
    x = src
    for k in got:
        x = x[k]
    check(x is dst, 'the path does not lead to the destination')
    st.nontrivial(total > 1)
    st.label('big ' + d['k'])
    raises(IndexError, lambda: p[total])
    # take it apart without recursion
    todo = [src]
    while todo:
        x = todo.pop()
        todo += {id(y): y for y in x}.values()
        del x[:]


FACETS = {
    'paths': (30, gen_paths, run_paths),
    'big': (1, gen_big, run_big),
}
