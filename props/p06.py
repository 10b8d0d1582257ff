"""P06: node graphs behave as binary relations on object identities (model-based histories)."""
import gc
from guppy import sets as S
from guppy.heapy import heapyc
from pbt.core import Violation, check, eq, raises
from props.objs import *

SPEC = dict(
    id='P06', quick=70000, thorough=1800000,
    rule='A case is a history of 3-30 steps over up to 5 live node graphs (plain, mapping, subclass) whose nodes come from a pool of 2-16 generated objects, '
         'many equal, unhashable or raising; after each step every live graph is compared with a model relation on identities. '
         'Non-trivial: a graph with at least two edges was queried.',
    assumptions=['the order of edges and of targets of one source is unspecified', 'a rejected update may have added the edges it got before the failure',
                 'assigning the same target twice to one source leaves the number of edges unspecified until the next update'])

NG = heapyc.NodeGraph


class SubNG(NG):
    pass


def setup():
    gc.disable()


OPS = [(3, 'new'), (5, 'add'), (3, 'n1'), (2, 'upd'), (1.5, 'updd'), (3, 'get'), (3, 'set'), (2, 'invert'), (2, 'inverted'), (2, 'copy'), (2, 'relimg'),
       (2, 'restr'), (2, 'covers'), (1.5, 'domran'), (1.5, 'iter'), (1, 'clear'), (1.5, 'flat'), (0.5, 'drop'), (0.5, 'bad'), (0.5, 'in'), (0.4, 'tag')]


def gen(r):
    n = r.weighted([(5, r.randint(2, 8)), (2, r.randint(8, 30))])
    pool = gen_pool(r, 2, n) if r.chance(0.8) else [['plain', i] for i in range(r.randint(20, 60))]
    n = len(pool)
    idx = lambda: r.randint(0, n - 1)
    steps = []
    for _ in range(r.randint(3, 30)):
        steps.append([r.weighted(OPS), r.randint(0, 4), r.randint(0, 5), idx(), idx(), r.choice(ITERS), r.list(idx, 0, r.choice([2, 5, 12])),
                      r.list(lambda: [idx(), idx()], 0, r.choice([1, 4, 4, 16]))])
    return {'pool': pool, 'steps': steps, 'big': r.chance(0.05)}


class Var(object):
    __slots__ = ('o', 'm', 'mapping', 'dup', 'tag')

    def __init__(self, o, m, mapping, tag=None):
        self.o, self.m, self.mapping, self.dup, self.tag = o, set(m), bool(mapping), False, tag


def nm(pool, pairs):
    d = {id(x): i for i, x in enumerate(pool)}
    return sorted(((d.get(a, 'alien'), d.get(b, 'alien')) for a, b in pairs), key=str)


def observe(v, pool, what, full=True):
    o = v.o
    fl = o.as_flat_list()
    got = list(zip(map(id, fl[::2]), map(id, fl[1::2])))
    if set(got) != v.m:
        raise Violation('%s: as_flat_list gives %r, want %r' % (what, nm(pool, got), nm(pool, v.m)))
    if full:
        n = len(o)
        it = [(id(a), id(b)) for a, b in o]
        if set(it) != v.m or (not v.dup and len(it) != len(v.m)):
            raise Violation('%s: iteration gives %r, want %r' % (what, nm(pool, it), nm(pool, v.m)))
        if n != len(it):
            raise Violation('%s: len %d, %d edges iterated' % (what, n, len(it)))
        check(o.is_sorted, '%s: not sorted after iteration', what)
    check(bool(o.is_mapping) is v.mapping, '%s: is_mapping %r', what, o.is_mapping)
    check(getattr(o, '_hiding_tag_', None) is v.tag, '%s: hiding tag', what)


def run(d, st):
    pool = build_pool(d['pool'])
    vs = []
    rich = False

    def put(v, pos):
        if len(vs) < 5:
            vs.append(v)
        else:
            vs[pos % len(vs)] = v

    for sn, (op, a, b, e1, e2, ik, l, pl) in enumerate(d['steps']):
        what = 'step %d %s' % (sn, op)
        x, y = pool[e1 % len(pool)], pool[e2 % len(pool)]
        items = [pool[i % len(pool)] for i in l]
        ids = set(map(id, items))
        pairs = [(pool[i % len(pool)], pool[j % len(pool)]) for i, j in pl]
        if d['big'] and pl:
            pairs = pairs * 40 + [(p, q) for p in pool for q in pool[::2]]
        mp = {(id(p), id(q)) for p, q in pairs}
        if op == 'new' or not vs:
            cls = SubNG if b == 5 else NG
            it, fails = make_iter(ik, pairs)
            mapping = b % 2
            if fails:
                raises((Boom, TypeError), cls, it)
                continue
            if b == 4:
                v = Var(cls(), (), False)
            elif b == 2:
                v = Var(cls(None, []), (), False)
            else:
                v = Var(cls(it, mapping) if mapping else cls(iterable=it), mp, mapping)
            check(type(v.o) is cls, 'type')
            put(v, a)
            observe(v, pool, what, a % 2)
            continue
        st.label(op)
        v = vs[a % len(vs)]
        o, m = v.o, v.m
        if len(m) > 1:
            rich = True
        if op == 'add':
            eq(o.add_edge(x, y), None, what)
            m.add((id(x), id(y)))
            v.dup = False if v.dup is False else v.dup
        elif op == 'n1':
            it, fails = make_iter(ik, items)
            if b == 5:
                it, fails = S.MutNodeSet(items), False
            if fails:
                raises((Boom, TypeError), o.add_edges_n1, it, y)
                got = {(id(p), id(q)) for p, q in o}
                full = m | {(i, id(y)) for i in ids}
                check(m <= got <= full, '%s: rejected', what)
                v.m = m = got
            else:
                eq(o.add_edges_n1(it, y), None, what)
                m |= {(i, id(y)) for i in ids}
        elif op in ('upd', 'updd'):
            it, fails = make_iter(ik, pairs)
            if b == 5 and len(vs) > 1:
                w = vs[(a + 1) % len(vs)]
                it, fails, mp = w.o, False, set(w.m)
            if b == 4 and pairs:
                it, fails = make_iter('list', pairs + [[x, y]])[0], True
            if b == 3:
                it, fails = make_iter('list', pairs + [(x, y, x)])[0], True
            if op == 'upd':
                if fails:
                    raises((Boom, TypeError), o.update, it)
                    got = {(id(p), id(q)) for p, q in o}
                    check(m <= got <= m | mp, '%s: rejected update gives %r, was %r', what, nm(pool, got), nm(pool, m))
                    v.m = m = got
                else:
                    eq(o.update(it), None, what)
                    m |= mp
            elif fails:
                raises((Boom, TypeError), o.updated, it)
            else:
                n = o.updated(it)
                check(type(n) is type(o), '%s: type %r', what, type(n))
                nv = Var(n, m | mp, v.mapping, v.tag)
                nv.dup = v.dup
                put(nv, b)
                observe(nv, pool, what)
        elif op == 'get':
            want = [q for p, q in m if p == id(x)]
            if v.mapping:
                if not want:
                    e = raises(KeyError, o.__getitem__, x)
                elif len(want) > 1:
                    raises(ValueError, o.__getitem__, x)
                elif not v.dup:
                    check(id(o[x]) == want[0], '%s: other target', what)
            else:
                t = o[x]
                check(type(t) is tuple, '%s: %r', what, type(t))
                got = list(map(id, t))
                if v.dup:
                    got = list(set(got))
                check(sorted(got) == sorted(want), '%s: %r, want %r', what, nm(pool, [(0, i) for i in got]), nm(pool, [(0, i) for i in want]))
        elif op == 'set':
            want = [q for p, q in m if p == id(x)]
            if v.dup:
                continue
            if b == 5:
                raises(NotImplementedError, o.__delitem__, x)
            elif v.mapping:
                if len(want) == 1:
                    o[x] = y
                    m.discard((id(x), want[0]))
                    m.add((id(x), id(y)))
                    check(o[x] is y, '%s', what)
                else:
                    raises(ValueError, o.__setitem__, x, y)
            else:
                k = len(want)
                if b == 4:
                    raises(TypeError, o.__setitem__, x, list(range(k)))
                elif b == 3:
                    raises(ValueError, o.__setitem__, x, tuple(range(k + 1)))
                else:
                    new = tuple((items * (k + 1) + pool * (k + 1))[:k])
                    o[x] = new
                    m -= {(id(x), q) for q in want}
                    m |= {(id(x), id(q)) for q in new}
                    if len(set(map(id, new))) < k:
                        v.dup = True
                    got = o[x]
                    check(sorted(map(id, got)) == sorted(map(id, new)), '%s: %d targets assigned', what, k)
        elif op == 'invert':
            eq(o.invert(), None, what)
            v.m = m = {(q, p) for p, q in m}
        elif op == 'inverted':
            n = o.inverted()
            check(type(n) is type(o) and n is not o, '%s', what)
            nv = Var(n, {(q, p) for p, q in m}, v.mapping, v.tag)
            nv.dup = v.dup
            put(nv, b)
            observe(nv, pool, what)
        elif op == 'copy':
            n = o.copy()
            check(type(n) is type(o) and n is not o, '%s', what)
            nv = Var(n, m, v.mapping, v.tag)
            nv.dup = v.dup
            put(nv, b)
            observe(nv, pool, what, e1 % 2)
        elif op == 'relimg':
            it, fails = make_iter(ik, items)
            if b == 5:
                it, fails = S.ImmNodeSet(items), False
            if fails:
                raises((Boom, TypeError), o.relimg, it)
            else:
                t = o.relimg(it)
                check(isinstance(t, S.NodeSet), '%s: %r', what, type(t))
                eq(set(map(id, t)), {q for p, q in m if p in ids}, what)
                check(getattr(t, '_hiding_tag_', None) is v.tag, '%s: tag', what)
        elif op == 'restr':
            it, fails = make_iter(ik, items)
            if b == 5:
                it, fails = S.MutNodeSet(items), False
            if fails:
                raises((Boom, TypeError), o.domain_restricted, it)
            else:
                n = o.domain_restricted(it)
                nv = Var(n, {(p, q) for p, q in m if p in ids}, v.mapping, v.tag)
                nv.dup = v.dup
                observe(nv, pool, what)
                if e1 % 2:
                    put(nv, b)
        elif op == 'covers':
            it, fails = make_iter(ik, items)
            if b == 5:
                it, fails = S.MutNodeSet(items), False
            want = ids <= {p for p, q in m}
            try:
                got = o.domain_covers(it)
            except (Boom, TypeError):
                if not fails:
                    raise
            else:
                check(got is want or (fails and got is False), '%s: %r, want %r', what, got, want)
        elif op == 'domran':
            eq(set(map(id, o.get_domain())), {p for p, q in m}, what + ' domain')
            eq(set(map(id, o.get_range())), {q for p, q in m}, what + ' range')
        elif op == 'iter':
            it = iter(o)
            got = []
            try:
                for i in range(e1):
                    t = next(it)
                    check(type(t) is tuple and len(t) == 2, '%s', what)
                    got.append((id(t[0]), id(t[1])))
                    check(got[-1] in m, '%s: iterator gives an edge that is not in it', what)
            except StopIteration:
                check(set(got) == m, '%s: iteration stopped after %d of %d edges', what, len(got), len(m))
                raises(StopIteration, next, it)
            check(v.dup or len(set(got)) == len(got), '%s: edge given twice', what)
            before = set(m)
            if b == 1:
                o.add_edge(x, y)
                m.add((id(x), id(y)))
            elif b == 2:
                o.clear()
                m.clear()
                v.dup = False
            elif b == 3:
                o.invert()
                v.m = m = {(q, p) for p, q in m}
            elif b == 4:
                list(o.get_domain())
            # further items, if any, are edges of the present graph, or the change is reported
            try:
                for t in it:
                    check((id(t[0]), id(t[1])) in m, '%s: iterator gives an edge that is not in the changed graph', what)
            except RuntimeError:
                check(b in (1, 2, 3), '%s: reports a change that was not made', what)
        elif op == 'clear':
            eq(o.clear(), None, what)
            m.clear()
            v.dup = False
        elif op == 'flat':
            t = o.as_flat_list()
            check(type(t) is list and len(t) >= 2 * len(m) and len(t) % 2 == 0, '%s: %d items', what, len(t))
        elif op == 'drop':
            vs.remove(v)
        elif op == 'bad':
            if b == 0:
                raises(TypeError, o.add_edge, x)
            elif b == 1:
                raises(TypeError, o.add_edges_n1, x if not hasattr(x, '__iter__') else 1, y)
            elif b == 2:
                raises(TypeError, o.relimg)
            elif b == 3:
                raises(TypeError, NG, [], 1, 2)
            elif b == 4:
                raises(TypeError, o.update, 3)
            else:
                raises(AttributeError, setattr, o, 'is_mapping', 1)
        elif op == 'in':
            pass
        elif op == 'tag':
            if b % 2:
                v.o._hiding_tag_ = v.tag = 'T%d' % b
            elif v.tag is not None:
                del v.o._hiding_tag_
                v.tag = None
        observe(v, pool, what, (sn + b) % 3 != 0)
        for u in vs:
            if u is not v:
                fl = u.o.as_flat_list()
                if set(zip(map(id, fl[::2]), map(id, fl[1::2]))) != u.m:
                    raise Violation('%s changed another graph' % what)
    for u in vs:
        observe(u, pool, 'at the end')
        for x in pool:
            want = [q for p, q in u.m if p == id(x)]
            if u.mapping:
                if len(want) == 1 and not u.dup:
                    check(id(u.o[x]) == want[0], 'lookup at the end')
            elif not u.dup:
                check(sorted(map(id, u.o[x])) == sorted(want), 'lookup at the end')
    st.nontrivial(rich)


FACETS = {'hist': (1, gen, run)}
