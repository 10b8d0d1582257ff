"""P05: node sets and node graphs own their members exactly."""
import gc
import sys
import weakref
from guppy import sets as S
from guppy.heapy import heapyc
from pbt.core import Violation, check, eq, raises
from props.objs import Boom, FailIter, make_iter

SPEC = dict(
    id='P05', quick=90000, thorough=2500000,
    rule='refs: a history of 3-30 operations over up to 6 node sets and node graphs and their iterators; after each step the reference count of every one of '
         '2-14 observable objects equals its baseline plus one per set that holds it and one per edge end, and objects held by nothing are gone. '
         'fin: the same with finalizers and weak reference callbacks that operate on the sets while members are released. '
         'cycle: random garbage cycles through sets, graphs, iterators and plain objects must be collected completely. Non-trivial: at least one object was '
         'released through a set or graph.',
    assumptions=['reference counts of objects that only the history refers to are exact in CPython'])

NG = heapyc.NodeGraph


class Obj(object):
    __slots__ = ('n', 'a', '__weakref__')

    def __init__(self, n):
        self.n = n


class SubMut(S.MutNodeSet):
    pass


class SubImm(S.ImmNodeSet):
    pass


class SubNG(NG):
    pass


def setup():
    gc.collect()
    gc.freeze()
    gc.disable()


ITERS = ['list', 'tuple', 'iter', 'gen', 'dictvals', 'getitem', 'fail']
OPS = [(4, 'newset'), (3, 'newgraph'), (3, 'bin'), (5, 'ibin'), (2, 'add'), (2, 'discard'), (1, 'tas'), (1, 'tac'), (2, 'pop'), (1, 'clear'), (1, 'append'),
       (1, 'remove'), (1.5, 'drop'), (1.5, 'iter'), (1.5, 'next'), (1, 'cmp'), (1, 'objat'), (2, 'addedge'), (1.5, 'n1'), (2, 'gop'), (2, 'gset'), (2, 'gget'),
       (1.5, 'gupd'), (1, 'dropobj'), (0.5, 'init')]


def gen_refs(r):
    n = r.randint(2, 14)
    idx = lambda: r.randint(0, n - 1)
    steps = []
    for _ in range(r.randint(3, 30)):
        steps.append([r.weighted(OPS), r.randint(0, 5), r.randint(0, 5), r.randint(0, 6), idx(), idx(), r.list(idx, 0, r.choice([2, 5, 12])), r.choice(ITERS)])
    return {'n': n, 'steps': steps}


def run_refs(d, st):
    n = d['n']
    objs = [Obj(i) for i in range(n)]
    refs = [weakref.ref(o) for o in objs]
    base = [sys.getrefcount(o) for o in objs]
    cons = []          # [container, kind, model]; model: Counter-like dict index -> references held
    its = []
    held = []           # iterators keep containers alive
    released = 0
    ids = {id(o): i for i, o in enumerate(objs)}
    alive = [True] * n  # reference in objs

    def counts_of(c, kind):
        """references the container should hold, read from its own contents"""
        cnt = [0] * n
        if kind in ('mut', 'imm'):
            for x in c:
                cnt[ids[id(x)]] += 1
        else:
            len(c)  # merges duplicates
            for x in c.as_flat_list():
                cnt[ids[id(x)]] += 1
        return cnt

    def verify(what):
        tot = [0] * n
        for c, kind in {id(t[0]): t for t in cons}.values():
            for i, k in enumerate(counts_of(c, kind)):
                tot[i] += k
        for i in range(n):
            o = refs[i]()
            if o is None:
                check(not alive[i] and not tot[i], '%s: object %d was freed although it is in a container', what, i)
                continue
            got = sys.getrefcount(o) - 1 - (base[i] - 1)
            want = tot[i] + (0 if alive[i] else -1)
            del o
            if got != want:
                raise Violation('%s: object %d has %d references more than expected (%d containers)' % (what, i, got - want, tot[i]))

    def put(c, kind, pos):
        if len(cons) < 6:
            cons.append((c, kind))
        else:
            cons[pos % len(cons)] = (c, kind)
            del its[:]

    def ob(i):
        return refs[i % n]()

    def items(l):
        return [x for x in (ob(i) for i in l) if x is not None]

    pend = 0
    for sn, (op, a, b, c, e1, e2, l, ik) in enumerate(d['steps']):
        st.label(op)
        what = 'step %d %s' % (sn, op)
        sets = [t for t in cons if t[1] in ('mut', 'imm')]
        graphs = [t for t in cons if t[1] == 'graph']
        # everything that needs temporary references is done in a function of its own
        def step():
            nonlocal released
            if op == 'newset' or (op in ('bin', 'ibin', 'add', 'discard', 'tas', 'tac', 'pop', 'clear', 'append', 'remove', 'cmp', 'objat') and not sets):
                it, fails = make_iter(ik, items(l))
                if c == 5 and sets:
                    it, fails = sets[b % len(sets)][0], False
                cls = [S.MutNodeSet, S.ImmNodeSet, SubMut, SubImm][a % 4]
                try:
                    put(cls(it), 'imm' if a % 2 else 'mut', b)
                except Boom:
                    check(fails, '%s', what)
            elif op == 'newgraph' or (op in ('addedge', 'n1', 'gop', 'gset', 'gget', 'gupd') and not graphs):
                it, fails = make_iter(ik, [(x, y) for x in items(l[:3]) for y in items(l[2:5])])
                try:
                    put([NG, SubNG][a % 2](it, b % 2), 'graph', b)
                except Boom:
                    check(fails, '%s', what)
            elif op in ('bin', 'ibin'):
                v, kind = sets[a % len(sets)]
                if c < 3:
                    it, fails = make_iter(ik, items(l))
                elif c == 6:
                    it, fails = v, False
                else:
                    it, fails = sets[b % len(sets)][0], False
                bop = (e1 + e2) % 4
                try:
                    if op == 'bin':
                        r = [S.NodeSet.__or__, S.NodeSet.__and__, S.NodeSet.__sub__, S.NodeSet.__xor__][bop](v, it)
                    else:
                        r = [S.NodeSet.__ior__, S.NodeSet.__iand__, S.NodeSet.__isub__, S.NodeSet.__ixor__][bop](v, it)
                except Boom:
                    check(fails, '%s', what)
                    return
                if r is not v:
                    put(r, 'imm', e2)
            elif op in ('add', 'discard', 'tas', 'tac', 'pop', 'clear', 'append', 'remove'):
                v, kind = sets[a % len(sets)]
                if kind == 'imm':
                    return
                x = ob(e1)
                if op == 'pop':
                    if len(v):
                        v.pop()
                        released += 1
                elif op == 'clear':
                    released += len(v)
                    v.clear()
                elif x is None:
                    return
                else:
                    try:
                        getattr(v, op)(x)
                    except ValueError:
                        pass
                    if op in ('discard', 'tac', 'remove'):
                        released += 1
            elif op == 'drop' and cons:
                released += len(cons[a % len(cons)][0])
                del cons[a % len(cons)]
                if b % 2:
                    del its[:]      # else checked when the iterators are gone
                else:
                    held.append(1)
            elif op == 'iter' and cons:
                if len(its) < 4:
                    its.append(iter(cons[a % len(cons)][0]))
                else:
                    del its[:]
            elif op == 'next' and its:
                try:
                    for _ in range(b):
                        next(its[a % len(its)])
                except (StopIteration, RuntimeError):
                    pass
                if c == 0:
                    del its[a % len(its)]
            elif op == 'cmp':
                x, y = sets[a % len(sets)][0], sets[b % len(sets)][0]
                x == y, x < y, x != l
                try:
                    x < l
                except TypeError:
                    pass
                hash(x) if sets[a % len(sets)][1] == 'imm' else None
                for o in items(l):
                    o in x
            elif op == 'objat':
                x, kind = sets[a % len(sets)]
                o = ob(e1)
                if kind == 'imm' and o is not None:
                    try:
                        check(x.obj_at(id(o)) is o, '%s', what)
                    except ValueError:
                        pass
            elif op == 'addedge':
                x, y = ob(e1), ob(e2)
                if x is not None and y is not None:
                    graphs[a % len(graphs)][0].add_edge(x, y)
                    if c == 0:
                        graphs[a % len(graphs)][0].add_edge(x, y)
            elif op == 'n1':
                y = ob(e2)
                it, fails = make_iter(ik, items(l))
                if c == 0 and sets:
                    it, fails = sets[0][0], False
                try:
                    if y is not None:
                        graphs[a % len(graphs)][0].add_edges_n1(it, y)
                except Boom:
                    check(fails, '%s', what)
            elif op == 'gop':
                g = graphs[a % len(graphs)][0]
                it, fails = make_iter(ik, items(l))
                if e1 % 2 and sets:
                    it, fails = sets[b % len(sets)][0], False
                try:
                    if c == 0:
                        g.invert()
                    elif c == 1:
                        put(g.inverted(), 'graph', b)
                    elif c == 2:
                        put(g.copy(), 'graph', b)
                    elif c == 3:
                        put(g.get_domain(), 'mut', b)
                        put(g.get_range(), 'mut', b + 1)
                    elif c == 4:
                        put(g.relimg(it), 'mut', b)
                    elif c == 5:
                        put(g.domain_restricted(it), 'graph', b)
                    else:
                        g.domain_covers(it)
                        if e1 % 3 == 0:
                            g.clear()
                except Boom:
                    check(fails, '%s', what)
            elif op == 'gset':
                g = graphs[a % len(graphs)][0]
                x = ob(e1)
                if x is None:
                    return
                try:
                    old = g[x]
                except (KeyError, ValueError):
                    return
                if g.is_mapping:
                    y = ob(e2)
                    if y is not None:
                        g[x] = y
                        check(g[x] is y, '%s', what)
                else:
                    new = items(l)
                    new = [o for i, o in enumerate(new) if o not in new[:i]]
                    k = len(old)
                    if c % 2 and len(new) >= k:
                        g[x] = tuple(new[:k])
                        check(all(p is q for p, q in zip(g[x], new)), '%s: assigned targets', what)
                    elif c % 4 == 0:
                        try:
                            g[x] = tuple(new) + (x, x)
                        except ValueError:
                            pass
                    else:
                        g[x] = tuple(reversed(old))
                released += 1
            elif op == 'gget':
                g = graphs[a % len(graphs)][0]
                x = ob(e1)
                if x is not None:
                    try:
                        g[x]
                    except (KeyError, ValueError):
                        pass
                    try:
                        del g[x]
                    except NotImplementedError:
                        pass
                if c == 0:
                    list(g)
                    g.as_flat_list()
            elif op == 'gupd':
                g = graphs[a % len(graphs)][0]
                pairs = [(x, y) for x in items(l[:3]) for y in items(l[2:6])]
                if c == 0:
                    pairs.append('xy')
                if c == 1:
                    pairs.append((1, 2, 3))
                it, fails = make_iter(ik, pairs)
                try:
                    if b % 2:
                        put(g.updated(it), 'graph', e1)
                    elif c == 2:
                        g.update(g)
                    else:
                        g.update(it)
                except (Boom, TypeError, RuntimeError):
                    pass
            elif op == 'dropobj':
                i = e1 % n
                objs[i] = None
                alive[i] = False
            elif op == 'init' and cons:
                # a constructor called again must not lose references
                o = cons[a % len(cons)][0]
                try:
                    o.__init__(items(l))
                except (Boom, TypeError):
                    pass
        step()
        sets = graphs = None
        if held and not its:
            del held[:]
        if not held:
            verify(what)
    del its[:]
    verify('iterators dropped')
    released += sum(len(c) for c, k in cons)
    del cons[:], sets, graphs, step
    gone = [i for i in range(n) if alive[i] and sys.getrefcount(refs[i]()) != base[i] - 1]
    check(not gone, 'objects %r still have extra references after all containers are gone', gone)
    left = [i for i in range(n) if not alive[i] and refs[i]() is not None]
    check(not left, 'objects %r are still alive after all containers are gone', left)
    del objs[:]
    left = [i for i in range(n) if refs[i]() is not None]
    check(not left, 'objects %r are still alive after everything is gone', left)
    st.nontrivial(released > 0)


# -- finalizers that use the containers
ACTS = ['add', 'discard', 'clear', 'pop', 'iter', 'ior', 'isub', 'iand', 'ixor', 'len', 'copy', 'addedge', 'gclear', 'giter', 'gsort', 'resurrect', 'none', 'gc', 'getobjs', 'cmp', 'gset']
TRIG = ['clear', 'pop', 'discard', 'isub', 'iand', 'ixor', 'dropset', 'dropgraph', 'gclear', 'gset', 'gmap', 'iself', 'del', 'gc', 'isubset', 'immdrop', 'ior', 'add', 'relimg']


def gen_fin(r):
    n = r.pick(2, 5, 12, 70, 200) if r.chance(0.4) else r.randint(2, 12)
    idx = lambda: r.randint(0, n - 1)
    return {'n': n, 'acts': [[idx(), r.choice(ACTS), r.choice(['m1', 'm2', 'm1']), r.randint(0, 3), r.choice(['del', 'wr'])] for _ in range(r.randint(1, 6))],
            'm1': r.list(idx, 1, n), 'm2': r.list(idx, 0, n), 'full': r.chance(0.4), 'g': r.list(lambda: [idx(), idx()], 0, 10),
            'steps': r.list(lambda: [r.choice(TRIG), r.randint(0, 5), r.list(idx, 0, 6)], 1, 6)}


class Env(object):
    pass


class Fin(object):
    __slots__ = ('n', 'act', 'env', 'l', '__weakref__')

    def __init__(self, n, env):
        self.n, self.env, self.act = n, env, ()
        self.l = None
        env.made += 1

    def __del__(self):
        env = self.env
        if self.act is not None:
            act, self.act = self.act, None
            env.freed += 1
            for a, where, k in act:
                if a == 'resurrect':
                    env.res.append(self)
                    break
                do_act(env, a, where, k)


def do_act(env, a, where, k):
    m = getattr(env, where)
    other = env.m2 if where == 'm1' else env.m1
    g = env.g
    env.depth += 1
    try:
        if env.depth > 30 or m is None or other is None or g is None:
            return
        if a == 'add':
            for i in range(1 + k * 20):
                m.add(Fin(1000 + i, env))
        elif a == 'discard':
            for x in list(m)[:k]:
                m.discard(x)
        elif a == 'clear':
            m.clear()
        elif a == 'pop':
            for _ in range(k):
                if m:
                    m.pop()
        elif a == 'iter':
            for x in m:
                x.n
        elif a == 'ior':
            m |= other
        elif a == 'isub':
            m -= other
        elif a == 'iand':
            m &= other
        elif a == 'ixor':
            m ^= other
        elif a == 'len':
            check(len(m) == len(list(m)), 'len differs from number of elements inside a finalizer')
        elif a == 'copy':
            S.ImmNodeSet(m) | other
            S.MutNodeSet(m)
        elif a == 'cmp':
            m == other, m < other
        elif a == 'addedge':
            for i in range(1 + k * 10):
                x = Fin(2000, env)
                g.add_edge(x, x)
        elif a == 'gclear':
            g.clear()
        elif a == 'giter':
            for x, y in g:
                x.n, y.n
            for x in g.as_flat_list():
                x.n
        elif a == 'gsort':
            len(g)
        elif a == 'gset':
            for x, y in list(g)[:k]:
                g[x] = tuple(reversed(g[x]))
        elif a == 'gc':
            gc.collect()
        elif a == 'getobjs':
            for x in gc.get_objects():
                if isinstance(x, S.MutNodeSet):
                    len(x), list(x)
    except (Violation, ValueError, RuntimeError, TypeError) as e:
        if isinstance(e, (Violation, TypeError)):
            env.err = e
    finally:
        env.depth -= 1


def run_fin(d, st):
    env = Env()
    env.made = env.freed = env.depth = 0
    env.res = []
    env.err = None
    env.m1 = env.m2 = env.g = None
    n = d['n']
    objs = [Fin(i, env) for i in range(n)]
    env.wr = []
    for i, a, where, k, how in d['acts']:
        if how == 'wr' and a != 'resurrect':
            env.wr.append(weakref.ref(objs[i % n], lambda r, a=a, where=where, k=k, env=env: do_act(env, a, where, k)))
        else:
            o = objs[i % n]
            o.act = o.act + ((a, where, k),)
        st.label('act ' + a)
    env.m1 = S.MutNodeSet(objs if d['full'] else [objs[i % n] for i in d['m1']])
    env.m2 = S.MutNodeSet([objs[i % n] for i in d['m2']])
    env.g = NG([(objs[i % n], objs[j % n]) for i, j in d['g']])
    mg = NG([(None, objs[0])], True)
    imm = S.ImmNodeSet(objs[:3])
    o = None
    del objs
    if env.m1 is None:
        raise Violation('impossible')
    for sn, (op, k, l) in enumerate(d['steps']):
        what = 'step %d %s' % (sn, op)
        st.label('trig ' + op)
        m1, m2, g = env.m1, env.m2, env.g
        pool = list(m1)
        some = [pool[i % len(pool)] for i in l] if pool else []
        del pool
        if op == 'clear':
            del some
            m1.clear()
        elif op == 'pop':
            del some
            for _ in range(k):
                if m1:
                    m1.pop()
        elif op == 'discard':
            x = some.pop() if some else None
            del some
            m1.discard(x)
            x = None
        elif op == 'isub':
            it = S.ImmNodeSet(some) if k % 2 else iter(some)
            del some
            m1 -= it
            del it
        elif op == 'isubset':
            del some
            m1 -= m2
        elif op == 'iand':
            del some
            m1 &= (m2 if k % 2 else [])
        elif op == 'ixor':
            it = S.MutNodeSet(some)
            del some
            m1 ^= (it if k % 2 else m2)
            del it
        elif op == 'ior':
            del some
            m1 |= (m2 if k % 2 else S.MutNodeSet(m2))
        elif op == 'iself':
            del some
            if k % 3 == 0:
                m1 -= m1
            elif k % 3 == 1:
                m1 ^= m1
            else:
                m1 &= m1
        elif op == 'dropset':
            del some, m1
            env.m1 = None
            env.m1 = S.MutNodeSet()
        elif op == 'dropgraph':
            del some, g
            env.g = None
            env.g = NG()
        elif op == 'gclear':
            del some
            g.clear()
        elif op == 'gset':
            del some
            for x, y in list(g)[:k]:
                t = g[x]
                try:
                    g[x] = tuple(Fin(3000 + i, env) for i in range(len(t)))
                except (TypeError, ValueError):
                    pass
            t = x = y = None
        elif op == 'gmap':
            del some
            mg[None] = None if k % 2 else Fin(4000, env)
        elif op == 'del':
            x = some.pop() if some else None
            del some
            m2.discard(x)
            m1.tac(x)
            x = None
        elif op == 'gc':
            del some
            gc.collect()
        elif op == 'immdrop':
            del some
            imm = None
        elif op == 'add':
            m2 |= some
            del some
        elif op == 'relimg':
            g.relimg(some)
            g.domain_restricted(some)
            g.domain_covers(some)
            del some
        m1 = m2 = g = None
        for m in (env.m1, env.m2):
            l = list(m)
            if len(l) != len(m) or len({id(x) for x in l}) != len(l) or any(type(x) is not Fin for x in l):
                raise Violation('%s: inconsistent node set afterwards: len %d, %d elements' % (what, len(m), len(l)))
        for x in env.g.as_flat_list():
            check(type(x) is Fin, '%s: graph contains %r', what, type(x))
        l = x = m = None
        if env.err is not None:
            raise env.err
    imm = mg = None
    env.m1.clear()
    env.m2.clear()
    env.g.clear()
    for _ in range(40):   # finalizers may have added new ones
        env.m1 = env.m2 = env.g = None
        del env.res[:]
        gc.collect() if env.freed < env.made else None
        if env.freed >= env.made:
            break
    env.wr = None
    if env.err is not None:
        raise env.err
    if env.freed != env.made:
        raise Violation('%d objects made, %d finalized after everything was dropped' % (env.made, env.freed))
    st.nontrivial(True)


# -- cycles
CK = ['obj', 'mut', 'imm', 'graph', 'submut', 'subimm', 'subgraph', 'itmut', 'itimm', 'itgraph', 'tag']


def gen_cycle(r):
    n = r.randint(2, 10)
    return {'nodes': [r.choice(CK) for _ in range(n)], 'edges': r.list(lambda: [r.randint(0, n - 1), r.randint(0, n - 1)], n, 3 * n), 'keep': r.randint(-2, n - 1)}


class CObj(object):
    pass


class WMut(S.MutNodeSet):
    __slots__ = ('x', '__weakref__')


class WImm(S.ImmNodeSet):
    pass


class WNG(NG):
    __slots__ = ('x', '__weakref__')


def run_cycle(d, st):
    kinds = d['nodes']
    n = len(kinds)
    nodes = []
    probes = [CObj() for _ in range(n)]     # one observable object per node, held only by the node
    wrs = [weakref.ref(p) for p in probes]
    adj = [[] for _ in range(n)]
    for a, b in d['edges']:
        adj[a % n].append(b % n)
    for k, p in zip(kinds, probes):
        if k == 'obj':
            o = p
        elif k in ('mut', 'itmut', 'tag'):
            o = S.MutNodeSet([p])
        elif k == 'submut':
            o = WMut([p])
        elif k in ('graph', 'itgraph'):
            o = NG([(p, p)])
        elif k == 'subgraph':
            o = WNG([(p, None)])
        else:
            o = [p]     # immutable: made below from a list of what it refers to
        nodes.append(o)
    for i, k in enumerate(kinds):
        o = nodes[i]
        if k in ('imm', 'itimm', 'subimm'):
            # an immutable set refers to earlier nodes only
            nodes[i] = (WImm if k == 'subimm' else S.ImmNodeSet)([probes[i]] + [nodes[j] for j in adj[i] if j < i] + [probes[j] for j in adj[i]])
    for i, k in enumerate(kinds):
        o = nodes[i]
        probes[i].out = [nodes[j] for j in adj[i]]
        for j in adj[i]:
            t = nodes[j]
            if k in ('mut', 'submut', 'itmut'):
                o.add(t)
            elif k == 'tag':
                o._hiding_tag_ = t
            elif k in ('graph', 'subgraph', 'itgraph'):
                o.add_edge(t, o if j % 2 else t)
            elif k == 'subimm':
                o.attr = t
        if k in ('itmut', 'itimm', 'itgraph'):
            it = iter(o)
            probes[i].it = it
            if len(adj[i]) % 2:
                next(it, None)
            if k == 'itgraph' and False:
                o.add_edge(it, it)
            it = None
    o = t = p = None
    for i in range(n):
        if nodes[i] is None:
            raise Violation('impossible')
    if d['keep'] >= 0:
        kept = nodes[d['keep'] % n]
        del nodes, probes
        gc.collect()
        # all nodes reachable from the kept one are alive
        seen, todo = set(), [d['keep'] % n]
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                k = kinds[i]
                check(wrs[i]() is not None, 'object held by live node %d (%s) was freed', i, k)
                todo += adj[i]
        kept = None
    else:
        del nodes, probes
    gc.collect()
    left = [(i, kinds[i]) for i in range(n) if wrs[i]() is not None]
    check(not left, 'garbage cycle not collected, left %r', left)
    st.nontrivial(True)


FACETS = {'refs': (6, gen_refs, run_refs), 'fin': (3, gen_fin, run_fin), 'cycle': (1, gen_cycle, run_cycle)}
