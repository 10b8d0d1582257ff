"""P13: individual sizes against the interpreter's, totals against the sum."""
import gc
import re
import sys
import tracemalloc
import types
from props.hpy import *
from props import graph, p07, values

SPEC = dict(
    id='P13', quick=5000, thorough=250000,
    rule='A case is a list of data objects over 65 kinds with generated lengths and fill histories, or a generated object graph with all it reaches; sizes are compared with the interpreter\'s before and after generated growth, '
         'and every figure derived from a set of them (total, printed total, statistics, partitions by 8 relations, rows by identity and by size, selections by size) is compared with the sum. One facet measures the memory really '
         'allocated for the library\'s own sets and graphs. Non-trivial: at least 4 different sizes occur and one object changed its size or the set holds 3 or more distinct members.',
    assumptions=['sys.getsizeof tells the real size of every object that is not one of the library\'s own mutable sets and graphs; the memory of those is measured with tracemalloc, up to 160 bytes of allocation slack'])

HV = None
BASE = None


def setup():
    global HV
    gc.disable()
    graph.strip_modules()
    HV = view()


def real(o):
    """The interpreter's size, or None where it has none"""
    if isinstance(o, (values.mutnodeset, values.NodeGraph, values.mutbitset)) or isinstance(o, values.NOSIZE):
        return None
    return sys.getsizeof(o)


def size1(hv, o, how):
    if how == 0:
        return hv.indisize_sum([o])
    if how == 1:
        return hv.indisize_sum(iter((o,)))
    if how == 2:
        return hv.cli_indisize({}).classify(o)
    if how == 3:
        return hv.indisize_sum(immnodeset([o]))
    return hv.indisize_sum([o, o]) // 2


def gen_each(r):
    return {'v': [values.gen_spec(r) for _ in range(r.randint(1, 8))], 'how': r.randrange(5), 'grow': [[r.randrange(8), r.randrange(4)] for _ in range(r.randint(0, 6))], 'fresh': r.chance(0.2)}


def run_each(d, st):
    objs = [values.make(s) for s in d['v']]
    hv = view() if d['fresh'] else HV
    seen = set()
    grew = False

    def one(i):
        o = objs[i]
        w = real(o)
        if isinstance(o, values.NodeGraph):
            list(o)     # sorts, and gives back what is not used
        s = size1(hv, o, d['how'])
        if w is None:
            check(s >= object.__sizeof__(o), 'size of %s is %r' % (d['v'][i], s))
            if isinstance(o, values.NOSIZE):
                # as the interpreter counts it: the object, rounded, and what the collector needs
                lo = (object.__sizeof__(o) + 16 * (type(o).__flags__ >> 14 & 1))
                check(lo <= s <= lo + 7 + 16, 'size of %s, which does not tell its size, is %r, at least %d', d['v'][i], s, lo)
            if isinstance(o, values.NodeGraph):
                check(s >= sys.getsizeof(o) + 16 * len(list(o)), 'size of %s is %r' % (d['v'][i], s))
            w = s
        eq(s, w, 'size of %s' % d['v'][i])
        seen.add(w)
        st.label(d['v'][i][0])
        return w
    tot = sum([one(i) for i in range(len(objs))])
    eq(hv.indisize_sum(objs), tot, 'sum of the sizes')
    for i, m in d['grow']:
        i %= len(objs)
        a = one(i)
        if values.grow(objs[i], m):
            grew |= one(i) != a
    eq(hv.indisize_sum(objs + objs), 2 * sum([one(i) for i in range(len(objs))]), 'sum of the sizes of a list with duplicates')
    eq(hv.indisize_sum(immnodeset(objs + objs)), sum({id(o): size1(hv, o, 0) for o in objs}.values()), 'sum of the sizes of a set')
    st.nontrivial(len(seen) >= 4 and grew)


def gen_reach(r):
    return {'g': p07.gen_g(r)}


def run_reach(d, st):
    """everything a generated graph reaches, frames and code objects included"""
    g = p07.build(d['g'])
    names = Names(g)
    try:
        w = graph.closure([g.nodes], lambda o: gc.get_referents(o) if type(o) is not types.FrameType else ())
        seen = set()
        tot = 0
        for o in w.values():
            s = HV.indisize_sum([o])
            z = real(o)
            if z is not None:
                eq(s, z, 'size of %s', names.of(o))
            seen.add(s)
            tot += s
        eq(HV.indisize_sum(w.values()), tot, 'sum over what the graph reaches')
        st.nontrivial(len(seen) >= 8)
    finally:
        g.clear()


def gen_set(r):
    n = r.randint(1, 14)
    v = []
    for _ in range(n):
        if v and r.chance(0.25):
            v.append(list(r.choice(v)))
        else:
            v.append(values.gen_spec(r, hi=r.pick(5, 40, 120)))
    return {'v': v, 'dup': [r.randrange(n) for _ in range(r.randrange(3))], 'cut': r.randrange(n + 1), 'grow': [[r.randrange(n), r.randrange(4)] for _ in range(r.randrange(4))],
            'er': [r.randrange(9) for _ in range(3)], 'q': [r.randrange(n) for _ in range(3)]}


ERS = ['byclodo', 'bytype', 'bysize', 'byid', 'bymodule', 'byunity', 'byvia', 'byrcs', 'byidset']
TOTAL = re.compile(r'Total size = (-?\d+) bytes')


def run_set(d, st):
    h = hp()
    V = h.View
    objs = [values.make(s) for s in d['v']]
    n = len(objs)
    old = V.root
    try:
        V.root = objs
        for round in range(2):
            args = objs + [objs[i % n] for i in d['dup']]
            uniq = {id(o): o for o in objs}
            sz = {i: HV.indisize_sum([o]) for i, o in uniq.items()}
            for i, o in uniq.items():
                w = real(o)
                if w is not None:
                    eq(sz[i], w, 'size of an object of type %s' % type(o).__name__)
            tot = sum(sz.values())
            x = h.iso(*args)
            eq(x.count, len(uniq), 'count')
            eq((x.size, x.indisize), (tot, tot), 'size of the set')
            s = x.stat
            eq((s.count, s.size), (len(uniq), tot), 'count and size of the statistic')
            eq(int(TOTAL.search(str(x)).group(1)), tot, 'printed total')
            eq(V.indisize(x), tot, 'View.indisize')
            eq(sum(x.byid.partition.get_row(i).size for i in range(len(uniq))), tot, 'sum of the rows by identity')
            for k in d['er']:
                name = ERS[k]
                y = getattr(x, name)
                p = y.partition
                eq((p.count, p.size), (len(uniq), tot), '%s: count and size of the partition' % name)
                cum = 0
                for row in p.get_rows():
                    mem = row.set.nodes
                    eq(row.count, len(mem), '%s: count of a row' % name)
                    eq(row.size, sum(sz[id(o)] for o in mem), '%s: size of a row' % name)
                    eq(row.set.size, row.size, '%s: size of the set of a row' % name)
                    cum += row.size
                    eq(row.cumulsize, cum, '%s: cumulative size' % name)
                eq(cum, tot, '%s: sum of the rows' % name)
                eq((y.stat.count, y.stat.size), (len(uniq), tot), '%s: statistic' % name)
                eq(y.size, tot, '%s: size' % name)
                eq(int(TOTAL.search(str(y)).group(1)), tot, '%s: printed total' % name)
            # by size: the kinds are the sizes
            b = x.bysize
            for row in b.partition.get_rows():
                z = row.kind.arg
                eq(row.size, z * row.count, 'size row')
                eq({id(o) for o in row.set.nodes}, {i for i in sz if sz[i] == z}, 'members of a size row')
            for i in d['q']:
                o = objs[i % n]
                z = sz[id(o)]
                for dz in (0, 1, -1):
                    q = max(0, z + dz)
                    for f, sel in (('==', x & h.Size(q)), ('<', x & h.Size(q).alt('<')), ('<=', x & h.Size(q).alt('<=')), ('>', x & h.Size(q).alt('>')), ('>=', x & h.Size(q).alt('>='))):
                        import operator
                        op = {'==': operator.eq, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[f]
                        want = {j for j in sz if op(sz[j], q)}
                        eq({id(y) for y in sel.nodes}, want, 'members with size %s %d' % (f, q))
                        if want:
                            eq(sel.size, sum(sz[j] for j in want), 'size of the selection %s %d' % (f, q))
                check((h.Size(z) >= h.iso(o)) and not (h.Size(z + 1) >= h.iso(o)), 'size kind does not contain its object')
                eq(h.iso(o).size, z, 'size of a single object')
                eq(h.iso(o).kind.fam is not None, True, 'kind')
            # parts
            c = d['cut'] % (n + 1)
            a, b = h.iso(*objs[:c]), h.iso(*objs[c:])
            ia, ib = ids(objs[:c]), ids(objs[c:])
            for what, res, want in (('|', a | b, ia | ib), ('&', a & b, ia & ib), ('-', a - b, ia - ib), ('^', a ^ b, ia ^ ib)):
                eq({id(o) for o in res.nodes}, want, 'members of a %s b' % what)
                eq((res.count, res.size), (len(want), sum(sz[i] for i in want)), 'count and size of a %s b' % what)
            st.nontrivial(len(set(sz.values())) >= 4 and len(sz) >= 3)
            # sizes at a later moment
            done = False
            for i, m in d['grow']:
                done |= values.grow(objs[i % n], m)
            if not done:
                break
            st.label('grown')
            z2 = sum(HV.indisize_sum([o]) for o in uniq.values())
            eq(x.size, z2, 'size of the set after its members changed')
            del x, y, p, row, mem, a, b, res, s, sel
            gc.collect()
    finally:
        V.root = old


def gen_own(r):
    return {'k': r.pick('imm', 'mutn', 'ng', 'mbs', 'bs', 'immsub', 'mutsub', 'ngsub', 'cpl'), 'n': r.pick(r.randint(0, 40), r.randint(0, 390)), 'm': r.randrange(4), 'grow': r.randrange(5)}


def run_own(d, st):
    spec = [d['k'], d['n'], d['m']]

    def build():
        o = values.make(spec)
        if d['grow']:
            values.grow(o, d['grow'])
        return o
    build()
    got = []
    tracemalloc.start()
    try:
        for _ in range(3):
            o = None
            gc.collect()
            a = tracemalloc.get_traced_memory()[0]
            o = build()
            gc.collect()
            got.append(tracemalloc.get_traced_memory()[0] - a)
    finally:
        tracemalloc.stop()
    got = sorted(got)[1]
    s = HV.indisize_sum([o])
    if d['k'] == 'cpl':
        s += HV.indisize_sum([~o])
    slack = 160
    if not -slack - s // 8 <= got - s <= slack + s // 8:
        raise Violation('%s: %d bytes were allocated, size reported %d' % (spec, got, s))
    st.nontrivial(d['n'] > 20)


class Bad(Exception):
    pass


class BadSize(object):
    def __init__(self, f):
        self.f = f

    def __sizeof__(self):
        return self.f()


def gen_bad(r):
    return {'v': [values.gen_spec(r) for _ in range(r.randrange(4))], 'at': r.randrange(4), 'how': r.randrange(5), 'q': r.randrange(7)}


def run_bad(d, st):
    """an error in a user-defined size is raised, not counted"""
    def f():
        if d['how'] == 0:
            raise Bad
        if d['how'] == 1:
            return -1
        if d['how'] == 2:
            return 1 << 80
        if d['how'] == 3:
            raise KeyError(1)
        return 10 ** 6
    bad = BadSize(f)
    objs = [values.make(s) for s in d['v']]
    objs.insert(d['at'] % (len(objs) + 1), bad)
    x = hp().iso(*objs)
    q = [lambda: HV.indisize_sum(objs), lambda: x.size, lambda: x.bysize.partition.size, lambda: x.stat.size, lambda: x.byid.partition.size, lambda: x & hp().Size(10), lambda: HV.cli_indisize({}).classify(bad)][d['q']]
    try:
        z = q()
        ok = True
    except (Bad, KeyError, ValueError, OverflowError) as e:
        ok = False
        eq(type(e), (Bad, ValueError, OverflowError, KeyError, None)[d['how']], 'exception')
    eq(ok, d['how'] == 4, 'a size was given')
    if ok and d['q'] != 5 and d['q'] != 6:
        eq(z, sum(HV.indisize_sum([o]) for o in {id(o): o for o in objs}.values()) if d['q'] else sum(HV.indisize_sum([o]) for o in objs), 'sum with a user-defined size')
    st.label('bad %d' % d['how'])
    st.nontrivial(len(objs) > 1)


FACETS = {
    'each': (6, gen_each, run_each),
    'reach': (2, gen_reach, run_reach),
    'set': (3, gen_set, run_set),
    'own': (1, gen_own, run_own),
    'bad': (1, gen_bad, run_bad),
}
