"""P20: observing the heap does not change it."""
import ctypes
import gc
import sys
import types
import weakref
from props.hpy import *
from pbt.core import Gen
from props import graph, p07, p10, popul, kinds, p15, values

SPEC = dict(
    id='P20', quick=1500, thorough=40000,
    rule='A case is a sequence of 1 to 10 queries over a population (generated object graph, data objects, same-named classes): the heap or a subset of the population, then classifications, referrers, dominators, paths, patterns, kinds, '
         'texts, statistics, horizons, low-level views, whole sessions, also queries that raise. (pure) The reference count, the references, the attributes and the tracking of every object of the population are compared before and after, no '
         'object\'s own methods may run, weak references must die when the population is dropped. (again) The queries are repeated in other orders and in another session: every one gives the same answer. '
         '(grow) The queries are repeated after a warm-up: the number of allocated blocks, the C heap, and the number of collectable objects must not grow. (count) The size of the whole heap as reported stays the same over repeated queries. '
         'Non-trivial: at least 3 queries of different sorts.',
    assumptions=['the session keeps the graphs of referrers and dictionary owners of the last queries until clear_retainers() or a later collection; the comparison is made after clear_retainers() and gc.collect()',
                 'the order of rows that tie in size, count and name is unspecified',
                 'strings are exempt from the comparison of reference counts (the interpreter caches attribute names)'])


def setup():
    p15.setup()
    p07.setup()


ERS = ['Clodo', 'Type', 'Size', 'Id', 'Rcs', 'Via', 'Module', 'Unity', 'Idset', 'Prod']
POSTS = ['str', 'len', 'size', 'kind', 'repr', 'parts', 'referrers', 'referents', 'rp', 'rpdeep', 'shpaths', 'imdom', 'dominos', 'domisize', 'indisize', 'stat', 'diff',
         'more', 'er', 'nodes', 'disj', 'prod', 'rows', 'ckc', 'owners', 'byid', 'doc', 'kindrepr', 'shpf', 'pathdeep', 'avoid', 'byvia', 'bytype', 'byrcs', 'maprox', 'stattab', 'iter', 'in']
RAISING = ['attr', 'and', 'getitem', 'call', 'isoattr', 'typecall', 'shp', 'fun', 'badkw', 'rpdepth', 'load']
HV = ['reachable', 'numedges', 'relate', 'relimg', 'indisize', 'step', 'owners', 'refs', 'heap', 'reachx', 'ng', 'sets']


def gen_q(r, sessions=True):
    k = r.weighted([(5, 'sub'), (2, 'heap'), (2, 'kind'), (2, 'hv'), (1, 'cli'), (2, 'err'), (.6, 'hor'), (.3, 'heapu'), (.4 if sessions else 0, 'ses'), (.5, 'expr'), (.3, 'misc'), (.3, 'dump')])
    if k == 'sub':
        return [k, pickset(r, 40, 1, r.pick(1, 2, 5)), [r.choice(POSTS) for _ in range(r.pick(1, 1, 2))], r.choice(ERS)]
    if k in ('heap', 'ses', 'dump'):
        return [k, [r.choice(POSTS) for _ in range(r.pick(0, 1, 1, 2))], r.choice(ERS)]
    if k == 'kind':
        return [k, kinds.gen_kind(r)]
    if k == 'expr':
        return [k, kinds.gen_expr(r, 2)]
    if k == 'hv':
        return [k, r.choice(HV), pickset(r, 40, 1, 5), r.randrange(40)]
    if k == 'cli':
        return [k, [p15.gen_cl(r, 2) for _ in range(r.randint(1, 2))]]
    if k == 'err':
        return [k, r.choice(RAISING), r.randrange(40)]
    return [k, r.randrange(8)]


def gen(r, lo=1, hi=10, sessions=True):
    return {'p': popul.gen_pop(r, r.pick(4, 8, 12), 6), 'q': [gen_q(r, sessions) for _ in range(r.randint(lo, hi))], 'm': r.randrange(1 << 30), 'spy': r.chance(0.5)}


# ---------------------------------------------------------------- objects that notice being used

CALLS = []


SPY = """
def mk(n):
    def f(self, *a, n=n):
        note(n)
        if n == '__hash__':
            return 7
        if n in ('__repr__', '__str__', '__format__'):
            return 'spy'
        if n in ('__bool__', '__eq__'):
            return True
        if n == '__getattribute__':
            return getattribute(self, *a)
        if n == '__setattr__':
            return setattribute(self, *a)
        if n == '__getattr__':
            raise Missing(a[0])
        if n == '__call__':
            return self
    return f
class P:
    __module__ = 'gm'
    @property
    def prop(self):
        note('property')
    @property
    def __class__(self):
        note('__class__')
        return int
"""
SPIED = ('__eq__ __ne__ __lt__ __le__ __gt__ __ge__ __hash__ __len__ __bool__ __iter__ __contains__ __getitem__ __call__ __getattr__ __getattribute__ '
         '__setattr__ __delattr__ __str__ __repr__ __format__ __dir__ __sizeof__ __reduce_ex__ __reduce__ __enter__ __exit__ __add__ __and__ __or__ __sub__ __index__ __int__ __float__ '
         '__instancecheck__ __subclasscheck__ __get__ __set__').split()


def spies():
    """objects whose every special method notes that it ran"""
    env = {'note': CALLS.append, 'getattribute': object.__getattribute__, 'setattribute': object.__setattr__, 'Missing': AttributeError, 'property': property, 'int': int, '__name__': 'gm',
           '__builtins__': {'__build_class__': __build_class__}}
    exec(SPY, env)
    ns = {n: env['mk'](n) for n in SPIED}
    ns['__module__'] = 'gm'
    env['__builtins__'].clear()
    ns1 = {k: v for k, v in ns.items() if k != '__hash__'}
    return type('Spy', (env['P'],), ns), type('SpyList', (list,), ns1), type('SpyDict', (dict,), ns1)


# ---------------------------------------------------------------- queries

class Boom(Exception):
    pass


class Ctx:
    """what a query may use; it keeps no result"""

    def __init__(self, h, P, w, inv, T):
        self.h, self.P, self.w, self.inv, self.T = h, P, w, inv, T

    def model(self):
        return kinds.Model(self.w, self.inv, self.h.View.hv)

    def exprs(self):
        M = self.model()
        return kinds.Exprs(self.h, M, self.T, self.h.iso(*self.T), lambda o: id(o) in self.w or gc.is_tracked(o))

    def pick(self, idx):
        T = self.T
        return list({id(T[i % len(T)]): T[i % len(T)] for i in idx}.values())


def toks(s):
    return tuple(sorted(s.split()))


def nrows(x):
    return x.partition.numrows if x.count else 0


STABLE = set()


def stable(w):
    """objects that the interpreter does not change on its own account"""
    STABLE.clear()
    STABLE.update(w)
    for o in w.values():
        if popul.is_subclass_dict(o):
            STABLE.difference_update([id(o)] + [id(x) for x in o] + [id(x) for x in o.values()])


def setids(it):
    return frozenset(map(id, it)) & STABLE


def setans(x):
    """an answer that does not hold the objects"""
    s = setids(x.nodes)
    return ('set', x.count, x.size, s) if len(s) == x.count else ('set', s)


def rowans(x):
    try:
        p = x.parts
        if len(p) > 200:
            return ()
    except (AttributeError, TypeError):
        return ()
    return (frozenset(setids(y.nodes) for y in p) - {frozenset()},)


def textans(x):
    return ('text',) + (toks(str(x)) if nrows(x) <= 8 else (nrows(x),))


def erof(h, n):
    if n == 'Idset':
        return h.Id
    return getattr(h, n)


def post(C, x, p, er):
    """answer and the set to go on with"""
    h = C.h
    small = x.count <= 60
    if p == 'str':
        return textans(x), x
    if p in ('len', 'size', 'indisize'):
        return {'len': x.count, 'size': x.size, 'indisize': x.indisize}[p], x
    if p == 'domisize':
        return x.domisize, x
    if p in ('kind', 'repr', 'er', 'doc'):
        if p == 'kind':
            k = x.kind
            return ('kind', toks(k.brief), x <= k), x
        if p == 'repr':
            return toks(repr(x)) if nrows(x) <= 8 else nrows(x), x
        if p == 'er':
            return repr(x.er), x
        return x.doc is not None, x
    if p == 'kindrepr':
        return repr(x.kind)[:20], x
    if p in ('parts', 'rows'):
        return rowans(x), x
    if p in ('referrers', 'referents', 'imdom', 'dominos'):
        if p in ('referrers', 'imdom', 'dominos') and not small:
            return None, x
        y = getattr(x, p)
        return setans(y), y
    if p in ('rp', 'rpdeep'):
        if not small:
            return None, x
        if p == 'rp':
            return ('rp', len(str(x.rp).split('\n'))), x
        q = x.get_rp(4, er=erof(h, er) if er != 'Prod' else None)
        return ('rp', len(str(q).split('\n'))), x
    if p in ('shpaths', 'pathdeep', 'avoid', 'shpf'):
        if not small:
            return None, x
        q = x.shpaths
        if p == 'shpaths':
            return ('paths', toks(str(q)) if q.numpaths <= 8 else q.numpaths), x
        if p == 'avoid':
            try:
                return ('paths', q.avoided(0).numpaths), x
            except (IndexError, ValueError):
                return None, x
        if p == 'shpf':
            r = h.iso(C.P.root)
            return ('paths', x.get_shpaths(r).numpaths), x
        if q.numpaths:
            a = q[0]
            return ('path', str(a), setans(a.src), setans(a.tgt)), x
        return None, x
    if p in ('stat', 'stattab'):
        s = x.stat
        return ('stat', toks(str(s)) if len(s) <= 8 else len(s)), x
    if p == 'diff':
        return ('stat', str(x.diff(x))), x
    if p == 'more':
        return len(str(x.more).split('\n')), x
    if p == 'nodes':
        return len(list(x.nodes)), x
    if p == 'disj':
        return (x.disjoint(h.iso(C.P.root)), x >= x, (x - x).count), x
    if p == 'prod':
        return setans(x.by(h.Prod)), x
    if p == 'ckc':
        return None if x.get_ckc() is None else 1, x
    if p == 'owners':
        if not small:
            return None, x
        y = x.owners
        return setans(y), y
    if p.startswith('by'):
        n = {'byid': 'Id', 'byvia': 'Via', 'bytype': 'Type', 'byrcs': 'Rcs'}[p]
        if not small and n == 'Id':
            return None, x
        y = x.by(getattr(h, n))
        return (setans(y), rowans(y)), y
    if p == 'maprox':
        return (x.maprox is not None), x
    if p == 'iter':
        return sum(1 for _ in x.byid.parts) if small else None, x
    if p == 'in':
        return [o in x for o in C.T[:5]], x
    raise HarnessError(p)


def q_sub(C, idx, posts, er):
    x = C.h.iso(*C.pick(idx))
    if er not in ('Prod',):
        x = x.by(erof(C.h, er))
    out = []
    for p in posts:
        ok = len(setids(x.nodes)) == x.count
        a, x = post(C, x, p, er)
        out.append(a if ok else None)
    return out


def q_heap(C, posts, er):
    h = C.h
    x = h.heap()
    if er not in ('Prod', 'Id', 'Idset'):
        x = x.by(erof(h, er))
    out = [setans(x)]
    for p in posts:
        ok = len(setids(x.nodes)) == x.count
        a, x = post(C, x, p, er)
        out.append(a if ok else None)
    return out


def q_ses(C, posts, er):
    h = guppy.hpy()
    h.View.root = C.P.root
    D = Ctx(h, C.P, C.w, C.inv, C.T)
    out = q_heap(D, posts, er)
    if C.T:
        out += q_sub(D, [0, 1], posts, er)
    return out


def q_kind(C, kd):
    E = C.exprs()
    try:
        k, p = E.build(kd)
    except kinds.Unavailable:
        return None
    y = E.X & k
    return setans(y), (E.X - k).count


def q_expr(C, kd):
    E = C.exprs()
    try:
        k, p = E.build(kd)
    except kinds.Unavailable:
        return None
    return setans(E.X & k)


def q_hor(C, i):
    z = C.h.View.horizon()
    for _ in range(i % 3):
        str(z.news())
    return None


def q_heapu(C, i):
    h = C.h
    if i & 1:
        old = h.relheapu
        h.setrelheapu()
        h.heapu()
        h.setrelheapu(old, stat=0)
        return None
    h.heapu(stat=i & 2)
    return None


def q_misc(C, i):
    h = C.h
    if i == 0:
        old = h.relheap, h.relheapu
        h.setref()
        n = h.heap()
        h.setrelheap(old[0])
        h.setrelheapu(old[1], stat=0)
        return setans(n)
    elif i == 1:
        return str(h.doc)[:20]
    elif i == 2:
        str(h.heap().stat - h.heap().stat)
    elif i == 3:
        return len(str(h.Anything)), repr(h.Nothing)
    elif i == 4:
        V = h.View
        V.referents(V.nodegraph and h.iso(C.P.root))
    elif i == 5:
        return repr(h.Root)
    elif i == 6:
        return len(dir(h.View.heapyc.RootState))
    else:
        return sorted(map(str, C.T and [type(C.T[0]).__name__] or []))


def q_dump(C, posts, er):
    import io
    f = io.StringIO()
    x = C.h.heap().by(erof(C.h, er if er not in ('Prod', 'Id', 'Idset') else 'Type'))
    x.dump(f)
    s = x.stat
    s.dump(f)
    return len(f.getvalue().split('\n'))


def q_err(C, m, i):
    h = C.h
    x = h.iso(*C.T[:3])
    try:
        if m == 'attr':
            x.nosuch
        elif m == 'and':
            x & C.P.root
        elif m == 'getitem':
            x[999]
        elif m == 'call':
            h.Clodo(1, 2, 3)
        elif m == 'isoattr':
            h.iso().theone
        elif m == 'typecall':
            h.Type(C.P.root)
        elif m == 'shp':
            x.get_shpaths(C.P.root)
        elif m == 'fun':
            def f(o):
                raise Boom(o)
            V = h.View
            t = V.hv.cli_type()
            V.hv.cli_user_defined(t, type(C.T[0]), f, None).partition(C.T)
        elif m == 'badkw':
            x.get_rp(nosuch=C.P.root)
        elif m == 'rpdepth':
            x.get_rp(C.T)
        elif m == 'load':
            h.load('/nonexistent/%d' % i)
    except Boom:
        return 'Boom'
    except Exception as e:
        return type(e).__name__
    return 'ok'


def q_cli(C, cds):
    """native classifiers, some of which raise at some object"""
    W = types.SimpleNamespace(V=C.h.View, M=C.model(), T=C.T, h=C.h)
    K = p15.Clis(W)
    C.h.iso(*C.T).byrcs.partition
    out = []
    for cd in cds:
        try:
            c, model, kk = K.make(cd)
        except kinds.Unavailable:
            continue
        for g in (lambda: len(c.partition(C.T)) if cd[0] != 'id' else None, lambda: len(c.epartition(C.T).get_domain()), lambda: len(c.select(C.T, c.classify(C.T[0]), '==')), lambda: [c.classify(o) is None for o in C.T]):
            try:
                x = g()
            except p15.Boom:
                x = 'Boom'
            out.append(x if not p15.unstable(cd) else None)
    return out


def q_hv(C, m, idx, j):
    objs = C.pick(idx)
    o = C.T[j % len(C.T)]
    hv = view(C.P.root)
    I = immnodeset(objs)
    if m == 'reachable':
        return setids(hv.reachable(I, immnodeset([o])))
    if m == 'reachx':
        return setids(hv.reachable_x(I, immnodeset([o])))
    if m == 'numedges':
        return hv.numedges(C.P.root, o)
    if m == 'relate':
        return [len(hv.relate(a, o)) for a in objs]
    if m == 'relimg':
        return setids(hv.relimg(objs))
    if m == 'indisize':
        return hv.indisize_sum(I)
    if m == 'heap':
        return setids(hv.heap())
    if m == 'step':
        G = NodeGraph()
        U, S = mutnodeset(I), mutnodeset(I)
        E = NodeGraph()
        hv.shpathstep(G, U, S, E, True)
        return len(list(G))
    if m == 'refs':
        G = NodeGraph()
        hv.update_referrers(G, I)
        n = len(list(G))
        G.invert()
        return n, len(list(G.inverted()))
    if m == 'owners':
        G = NodeGraph(is_mapping=True)
        hv.update_dictowners(G)
        return len(G.relimg(objs))
    if m == 'ng':
        G = NodeGraph([(a, o) for a in objs])
        H = G.copy()
        H.update([(o, a) for a in objs])
        H.invert()
        K = H.updated([(o, o)])
        H.add_edge(o, objs[0])
        H.add_edges_n1(objs, o)
        return len(list(H)), len(K.get_domain()), len(G.get_range()), len(G.domain_restricted(I)), sorted(len(G[a]) for a in objs), len(H.as_flat_list()), G.domain_covers(I)
    if m == 'sets':
        M = mutnodeset(objs)
        M.add(o)
        M ^= I
        M |= {id(o): o}
        M &= mutnodeset([o])
        M.tas(o), M.tac(o), M.append(o)
        return len(M | I), len(I - M), (I & M) <= I, M.pop() is o, I.obj_at(id(objs[0])) is objs[0], hash(I), M < I
    raise HarnessError(m)


QUERIES = {k[2:]: v for k, v in list(globals().items()) if k.startswith('q_')}


def ask(C, q):
    if not C.T and q[0] in ('sub', 'err', 'hv', 'kind', 'expr', 'cli'):
        return None
    return QUERIES[q[0]](C, *q[1:])


# ---------------------------------------------------------------- facets

class World:
    def __init__(self, d, spy=False):
        P = self.P = popul.Pop(d['p'])
        self.spies = []
        if spy:
            S, L, D = spies()
            s, l, e = S(), L([P.root[0], 1]), D({1: 2})
            s.x = [s, P.root[0]]
            self.spies = [s, l, e]
            for o in (s, l, e):
                P.g.nodes.append(o)
                P.g.kinds.append('spy')
            P.n += 3
            P.root.append([s, l, e])
        h = self.h = hp()
        self.old = h.View.root
        h.View.root = P.root
        gc.collect()
        self.w, self.inv = P.world()
        amb = popul.ambient()
        T = [t for t in P.targets() if id(t) not in amb and not any(map(popul.is_subclass_dict, self.inv.get(id(t), {}).values()))]
        self.C = Ctx(h, P, self.w, self.inv, T)
        stable(self.w)

    def settle(self):
        for _ in range(3):
            self.h.View.clear_retainers()
            gc.collect()

    def close(self):
        self.h.View.root = self.old


def sorts(d):
    return len({(q[0], str(q[1])[:20]) for q in d['q']})


def own(o):
    """attributes and contents, by identity"""
    t = type(o)
    if t is dict:
        return [(id(k), id(v)) for k, v in dict.items(o)]
    if t in (list, tuple):
        return [id(x) for x in o]
    if t in (set, frozenset, bytes, str):
        return len(o)
    if t in (int, float):
        return repr(o)
    return None


def run_pure(d, st):
    W = World(d, d['spy'])
    try:
        pure(W, d, st)
    finally:
        W.close()


def pure(W, d, st):
    amb = popul.ambient()
    skip = ids(W.w.values()) & set(amb) | {id(CALLS)}
    for o in W.w.values():
        if popul.is_subclass_dict(o):
            skip |= {id(o)} | ids(o)
    objs = [o for i, o in W.w.items() if i not in skip and type(o) is not str]
    names = W.P.names
    ref = W.P.ref
    C = W.C
    W.settle()

    def snap():
        rc = [sys.getrefcount(o) for o in objs]
        tr = [gc.is_tracked(o) for o in objs]
        re = [sorted(id(x) for x in ref(o)) if type(o) not in (types.FrameType, types.GeneratorType) else None for o in objs]
        ow = [own(o) for o in objs]
        return rc, tr, re, ow
    snap()
    gc.collect()
    a = snap()
    del CALLS[:]
    called = []
    for q in d['q']:
        ask(C, q)
        st.label(q[0])
        if q[0] not in ('kind', 'expr', 'cli'):   # where the objects themselves are the arguments
            called += CALLS
        del CALLS[:]
    W.settle()
    b = snap()
    for what, x, y in zip(('number of references', 'tracked', 'references', 'contents'), a, b):
        if x != y:
            l = ['%s: %.200r, was %.200r' % (names.of(o), n, m) for o, m, n in zip(objs, x, y) if m != n]
            raise Violation('%s changed by the queries: %s (%d objects)' % (what, '; '.join(l[:4]), len(l)))
    st.nontrivial(sorts(d) >= 3)
    rendering = {'__repr__', '__str__', '__sizeof__'}
    if W.spies:
        bad = [c for c in called if c not in rendering]
        st.label('spied')
        if bad:
            raise Violation('methods of examined objects ran: %s' % sorted(set(bad)))



def run_die(d, st):
    """nothing is kept alive"""
    W = World(d, d['spy'])
    P = W.P
    try:
        W.settle()
        for q in d['q']:
            ask(W.C, q)
            st.label(q[0])
    finally:
        W.close()
    amb = popul.ambient()
    kept = ids(graph.closure([values.__dict__, graph.__dict__, p07.__dict__, p10.__dict__, p15.__dict__, kinds.__dict__, globals()], PLAIN).values())
    wr = []
    for i, o in W.w.items():
        if i in amb or i in kept or i not in P.names and type(o).__module__ != 'gm' and getattr(o, '__module__', None) != 'gm':
            continue
        try:
            wr.append((weakref.ref(o), type(o).__name__, P.names.get(i)))
        except TypeError:
            pass
    n = W.w.__len__()
    o = None
    P.g.clear()
    W.w.clear()
    W.inv.clear()
    W.C.__dict__.clear()
    W.__dict__.clear()
    P.__dict__.clear()
    h = hp()
    for _ in range(3):
        h.View.clear_retainers()
        gc.collect()
    alive = [(t, nm) for w, t, nm in wr if w() is not None]
    if alive:
        raise Violation('kept alive after the queries: %s (%d of %d)' % (alive[:5], len(alive), len(wr)))
    st.nontrivial(sorts(d) >= 3 and len(wr) > 1)


def PLAIN(o):
    t = type(o)
    if t is dict:
        return list(o.values())
    if t in (list, tuple):
        return list(o)
    return []


def run_again(d, st):
    """the same query gives the same answer, whatever was asked before, and in another session"""
    W = World(d)
    try:
        C = W.C
        qs = d['q']
        a = [ask(C, q) for q in qs]
        r = Gen('again%d' % d['m'])
        n = 0
        for turn in range(3):
            order = list(range(len(qs)))
            D = C
            if turn == 0:
                r.shuffle(order)
            elif turn == 1:
                order.reverse()
                h = guppy.hpy()
                h.View.root = W.P.root
                D = Ctx(h, W.P, W.w, W.inv, C.T)
            else:
                W.settle()
                r.shuffle(order)
            for i in order:
                if turn == 1 and qs[i][0] in ('kind', 'expr', 'cli'):
                    continue
                b = ask(D, qs[i])
                n += b is not None
                if b != a[i]:
                    raise Violation('query %s gives %.300r, gave %.300r before (%s)' % (qs[i], b, a[i], ('other order', 'other session', 'again')[turn]))
        st.nontrivial(sorts(d) >= 3 and n > 3)
    finally:
        W.close()


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Mallinfo


def cheap():
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def run_grow(d, st):
    W = World(d, False)
    try:
        C = W.C

        def measure():
            W.settle()
            sys._clear_type_cache()     # it holds attribute names
            return [sys.getallocatedblocks(), len(gc.get_objects()), cheap()]

        def rounds(n):
            for _ in range(n):
                for q in d['q']:
                    ask(C, q)
        rounds(2)
        W.settle()
        rounds(2)
        # blocks come and go with the caches of the interpreter; a leak grows with every round
        suspect = [True] * 3
        for attempt, k in enumerate((8, 60, 60, 300, 300)):
            a = measure()
            rounds(k)
            b = measure()
            diff = [y - x for x, y in zip(a, b)]
            suspect = [s and n >= k * w for s, n, w in zip(suspect, diff, (.75, .75, 300))]
            if not any(suspect):
                break
        else:
            raise Violation('%d rounds of the queries leave %d blocks, %d collectable objects, %d bytes of the C heap, every time' % (k, diff[0], diff[1], diff[2]))
        st.label('tries %d' % attempt)
        st.nontrivial(sorts(d) >= 3)
    finally:
        W.close()


def run_count(d, st):
    """the whole heap as reported does not grow by being looked at"""
    W = World(d, False)
    h = W.h
    V = h.View
    try:
        C = W.C

        def look():
            V.root = RootState
            x = h.heap()
            n = x.count, x.size
            V.root = W.P.root
            return n
        for q in d['q']:
            ask(C, q)
        look()
        a = look()
        for turn in range(4):
            for _ in range(2):
                for q in d['q']:
                    ask(C, q)
            b = look()
            if b[0] <= a[0] and b[1] <= a[1]:
                break
            st.label('grew')
            diff = b[0] - a[0], b[1] - a[1]
            a = b
        else:
            raise Violation('the reported heap grows with every round of queries: by %d objects, %d bytes' % diff)
        st.nontrivial(sorts(d) >= 3)
    finally:
        V.root = W.old
        W.close()


FACETS = {
    'pure': (5, gen, run_pure),
    'die': (3, gen, run_die),
    'again': (4, gen, run_again),
    'grow': (2, lambda r: gen(r, 1, 5), run_grow),
    'count': (1, lambda r: gen(r, 1, 4), run_count),
}
