"""P16: sets of objects and kinds obey set algebra."""
import gc
import itertools
from props.hpy import *
from props import graph, p07, p10, popul, kinds
from props.p15 import World
from guppy.heapy.UniSet import IdentitySet

SPEC = dict(
    id='P16', quick=4000, thorough=250000,
    rule='A case is a population, 1 to 6 operands (concrete sets of its objects, the empty set, everything, kinds by generated relations, alternatives, types and node sets that are converted) and 0 to 14 operations on earlier '
         'results (| & - ^ ~, union of several, in-place forms, dictionaries of, bipartition by, index of first match). Every result is compared with the Boolean combination of the operands for every object, single or as a set; at the '
         'end every operand is compared again, and all pairs of results are compared with <, <=, ==, !=, >=, >, disjoint, hash and truth value. Non-trivial: at least 2 results contain some but not all of the objects.',
    assumptions=['comparisons of symbolic kinds may fail to claim what is true, but what they claim must be true for every object',
                 'the membership predicates of the operands are those of the model of kinds (P15)'])

BIN = ('|', '&', '-', '^')


def setup():
    gc.disable()
    graph.strip_modules()
    p07.setup()


def gen_alg(r):
    ks = []
    nice = r.chance(0.5)        # many operands of few families, so that rules for the same family meet
    base = kinds.gen_er(r, 1, r.chance(0.5))
    for _ in range(r.randint(1, 6)):
        x = r.random()
        if x < 0.2:
            ks.append(['set', [r.randrange(40) for _ in range(r.pick(1, 1, 2, 3, 6))]])
        elif x < 0.25:
            ks.append(['nodeset', [r.randrange(40) for _ in range(r.pick(0, 1, 2, 4))]])
        elif x < 0.29:
            ks.append(['nothing'])
        elif x < 0.32:
            ks.append(['con', 'Unity', 0, r.randrange(3)])
        elif nice and x < 0.7:
            ks.append(r.pick(['cls', base, r.randrange(40), r.randrange(4)], ['alt', base, r.randrange(40), r.choice(kinds.CMPS), 0],
                             ['condict', base, r.pick(2, 3), r.randrange(40)], ['con', 'Type', r.randrange(40), 2]))
        else:
            ks.append(kinds.gen_kind(r, sets=True))
    ops = []
    for i in range(r.pick(0, 2, 4, 7, 14)):
        n = len(ks) + i
        j = lambda: r.randrange(n) if r.chance(0.6) else max(0, n - 1 - r.randrange(3))
        x = r.random()
        if x < 0.72:
            ops.append([r.choice('||&&-^'), j(), j(), r.weighted([(6, 0), (1, 1), (2, 2)])])
        elif x < 0.86:
            ops.append(['~', j()])
        elif x < 0.9:
            ops.append(['dictof', j()])
        elif x < 0.94:
            ops.append(['biper', j(), r.pick(0, 0, 1, 2)])
        elif x < 0.97:
            ops.append(['findex', [j() for _ in range(r.randint(0, 3))], r.randrange(4)])
        else:
            ops.append(['union', [j() for _ in range(r.randint(0, 4))]])
    return {'p': popul.gen_pop(r, hi=8, vals=8), 'k': ks, 'o': ops, 'one': [r.randrange(40) for _ in range(3)]}


def run_alg(d, st):
    W = World(d['p'])
    try:
        if W.T:
            algebra(W, d, st)
    finally:
        W.close()


def operator(op, a, b):
    if op == '|':
        return a | b
    if op == '&':
        return a & b
    if op == '-':
        return a - b
    return a ^ b


def inplace(op, a, b):
    if op == '|':
        a |= b
    elif op == '&':
        a &= b
    elif op == '-':
        a -= b
    else:
        a ^= b
    return a


def algebra(W, d, st):
    h, T, names = W.h, W.T, W.names
    E = W.exprs()
    X = E.X
    vals = []       # (set, ids of the objects that are members, description)

    def want_of(p):
        return {id(o) for o in T if p(o)}

    def verify(k, want, what):
        if isinstance(k, type):
            k = h.Type(k)
        elif not isinstance(k, h.UniSet if hasattr(h, 'UniSet') else object):
            k = h.iso(*k)
        got = ids((X & k).nodes)
        if got != want:
            raise Violation('%s: contains %s, want %s' % (what, names.set(o for o in T if id(o) in got), names.set(o for o in T if id(o) in want)))
        got = ids((k & X).nodes)
        if got != want:
            raise Violation('%s: X & contains %s, want %s' % (what, names.set(o for o in T if id(o) in got), names.set(o for o in T if id(o) in want)))
        got = {id(o) for o in T if o in k}
        if got != want:
            raise Violation('%s: in: %s, want %s' % (what, names.set(o for o in T if id(o) in got), names.set(o for o in T if id(o) in want)))

    preds = []
    for kd in d['k']:
        try:
            if kd[0] == 'nodeset':
                k = W.V.immnodeset([E.obj(i) for i in kd[1]])
                s = ids(k)
                p = lambda x, s=s: id(x) in s
            elif kd[0] == 'nothing':
                k, p = h.Nothing, lambda x: False
            else:
                k, p = E.build(kd)
        except kinds.Unavailable:
            st.label('unavailable')
            k, p = h.Nothing, lambda x: False
        vals.append((k, want_of(p), kd))
        preds.append(p)
    us = h._parent.UniSet.UniSet
    for op in d['o']:
        def us_(i):
            k = vals[i][0]
            return k if isinstance(k, us) else h.Type(k) if isinstance(k, type) else h.idset(k) if hasattr(h, 'idset') else h.iso(*k)
        if op[0] in BIN:
            o, i, j, how = op
            a, b = vals[i][0], vals[j][0]
            pa, pb = preds[i], preds[j]
            if not isinstance(a, us) and not isinstance(b, us):
                a = us_(i)
            if how == 1 or isinstance(a, type) and not isinstance(b, us):
                a, b = us_(i), us_(j)
            if not isinstance(a, us) and not isinstance(a, type) or isinstance(a, type) and o == '|':
                # a node set decides itself what it combines with, and a type makes unions of types
                a = us_(i)
            r = inplace(o, a, b) if how == 2 else operator(o, a, b)
            p = {'|': lambda x, pa=pa, pb=pb: pa(x) or pb(x), '&': lambda x, pa=pa, pb=pb: pa(x) and pb(x),
                 '-': lambda x, pa=pa, pb=pb: pa(x) and not pb(x), '^': lambda x, pa=pa, pb=pb: bool(pa(x)) != bool(pb(x))}[o]
        elif op[0] == '~':
            pa = preds[op[1]]
            r, p = ~us_(op[1]), lambda x, pa=pa: not pa(x)
        elif op[0] == 'dictof':
            pa = preds[op[1]]

            def p(x, pa=pa):
                if type(x) is not dict:
                    return False
                w = W.M.owner(x)
                return w is not None and pa(w)
            a = us_(op[1])
            if not a:
                # dictof of nothing is the kind of dictionaries without an owner
                p = lambda x: type(x) is dict and W.M.owner(x) is None
            r = a.dictof
        elif op[0] == 'biper':
            pa = preds[op[1]]
            r, p = us_(op[1]).biper(op[2]), lambda x, pa=pa, i=op[2]: i == (0 if pa(x) else 1)
        elif op[0] == 'findex':
            ps = [preds[i] for i in op[1]]
            r = h.findex(*[us_(i) for i in op[1]])(op[2])

            def p(x, ps=ps, i=op[2]):
                return i == next((n for n, q in enumerate(ps) if q(x)), len(ps))
        else:
            ps = [preds[i] for i in op[1]]
            r = h.union([us_(i) for i in op[1]])
            p = lambda x, ps=ps: any(q(x) for q in ps)
        if op[0] in '|&^' and isinstance(a, us) and isinstance(b, us) and a.fam.isatom and b.fam.isatom:
            r2 = operator(op[0], b, a)
            check(r == r2, '%s: not equal with the operands exchanged', op)
            check(hash(r) == hash(r2), '%s: hash differs with the operands exchanged', op)
        st.label(op[0])
        want = want_of(p)
        verify(r, want, op)
        vals.append((r, want, op))
        preds.append(p)
    some = 0
    U = []
    for i, (k, want, kd) in enumerate(vals):
        if not isinstance(k, us):
            k = h.Type(k) if isinstance(k, type) else h.iso(*k)
        verify(k, want, '%s, afterwards' % kd)
        some += 0 < len(want) < len(T)
        U.append((k, want, kd, isinstance(k, IdentitySet), preds[i]))
        hash(k)
        if isinstance(k, IdentitySet):
            eq(bool(k), len(k.nodes) > 0, '%s: truth value', kd)
            eq(k is h.Nothing, len(k.nodes) == 0, '%s: is Nothing', kd)
            eq(k.count, len(k.nodes), '%s: count', kd)
        else:
            check(bool(k), '%s: a kind that is not Nothing is false', kd)
    st.nontrivial(some >= 2)
    # a few more, made from the same descriptions again, and pairs of all
    U = U[-9:]
    for (a, wa, da, ca, pa), (b, wb, db, cb, pb) in itertools.product(U, U):
        le, ge, e, ne, lt, gt, dj = a <= b, a >= b, a == b, a != b, a < b, a > b, a.disjoint(b)
        eq(e, le and ge, '%s, %s: == with <= and >=', da, db)
        eq(ne, not e, '%s, %s: != with ==', da, db)
        eq(lt, le and not ge, '%s, %s: <', da, db)
        eq(gt, ge and not le, '%s, %s: >', da, db)
        eq(le, b >= a, '%s, %s: <= and exchanged >=', da, db) if ca and cb else None
        for x in (le, ge, e, dj):
            check(x is True or x is False or isinstance(x, int), 'comparison gave %r', x)
        check(not le or wa <= wb, '%s <= %s claimed, but %s', da, db, names.set(o for o in T if id(o) in wa - wb))
        check(not ge or wb <= wa, '%s >= %s claimed, but %s', da, db, names.set(o for o in T if id(o) in wb - wa))
        check(not e or wa == wb, '%s == %s claimed', da, db)
        check(not dj or not wa & wb, '%s disjoint from %s claimed, but %s', da, db, names.set(o for o in T if id(o) in wa & wb))
        if e and (ca and cb or a.fam is b.fam and a.fam.isatom):
            check(hash(a) == hash(b), '%s == %s, but the hashes differ', da, db)
        if ca:
            # a concrete set: all its members are among T, unless it was made of other objects
            full = len(a.nodes) == len(wa)
            if full:
                eq(le, wa <= wb, '%s <= %s', da, db)
                eq(dj, not wa & wb, '%s disjoint from %s', da, db)
            if cb and len(b.nodes) == len(wb):
                if full:
                    eq(e, wa == wb, '%s == %s', da, db)
    for er1, er2 in ((k[1], l[1]) for k in d['k'][:2] for l in d['k'][:2] if k[0] == 'cls' and l[0] == 'cls'):
        x, y = kinds.er_of(h, er1), kinds.er_of(h, er2)
        if x <= y:
            f, g = W.M.key(er1), W.M.key(er2)
            m = {}
            for o in T:
                check(m.setdefault(f(o), g(o)) == g(o), '%s <= %s claimed, but not for %s', er1, er2, names.of(o))
            st.label('er<=')


FACETS = {
    'alg': (1, gen_alg, run_alg),
}
