"""P04: node sets behave as sets of object identities (model-based histories)."""
import gc
from guppy import sets as S
from pbt.core import Violation, check, eq, raises
from props.objs import *

SPEC = dict(
    id='P04', quick=60000, thorough=1500000,
    rule='A case is a history of 3-30 steps over up to 6 live mutable/immutable node sets (and subclasses) whose elements come from a pool of 3-24 generated '
         'objects, many of them equal, unhashable or raising from every method; after each step every live set is compared with a model of identity sets. '
         'Non-trivial: at least two sets with members existed and an operator combined two operands.',
    assumptions=['the order of iteration is unspecified', 'an in-place | or - with an operand whose iteration fails may have applied the elements it got so far'])


class SubMut(S.MutNodeSet):
    pass


class SubImm(S.ImmNodeSet):
    pass


def setup():
    gc.disable()


BIN = ['or', 'and', 'sub', 'xor']
OPS = ([(4, 'new'), (4, 'bin'), (5, 'ibin'), (2, 'add'), (1, 'append'), (2, 'discard'), (1, 'remove'), (1.5, 'tas'), (1.5, 'tac'), (1.5, 'pop'),
        (0.5, 'clear'), (1, 'copy'), (2, 'cmp'), (1, 'objat'), (0.7, 'iter'), (0.5, 'drop'), (0.5, 'tag'), (0.7, 'selfop'), (0.4, 'badarg')])


def gen(r):
    pool = gen_pool(r, 3, 24)
    n = len(pool)
    idx = lambda: r.randint(0, n - 1)

    def operand():
        if r.chance(0.6):
            return ['v', r.randint(0, 5)]
        return ['i', r.choice(ITERS), r.list(idx, 0, r.choice([2, 6, 20]))]
    steps = []
    for _ in range(r.randint(3, 30)):
        op = r.weighted(OPS)
        steps.append([op, r.randint(0, 5), r.randint(0, 5), r.choice(['mut', 'imm', 'mut', 'imm', 'submut', 'subimm']), r.choice(BIN), idx(), operand(),
                      r.list(idx, 0, 5)])
    return {'pool': pool, 'steps': steps}


def m_bin(op, a, b):
    return {'or': a | b, 'and': a & b, 'sub': a - b, 'xor': a ^ b}[op]


def do_bin(op, a, b):
    if op == 'or':
        return a | b
    if op == 'and':
        return a & b
    if op == 'sub':
        return a - b
    return a ^ b


def do_ibin(op, a, b):
    if op == 'or':
        a |= b
    elif op == 'and':
        a &= b
    elif op == 'sub':
        a -= b
    else:
        a ^= b
    return a


class Var(object):
    __slots__ = ('o', 'm', 'imm', 'tag', 'h')

    def __init__(self, o, m, imm, tag=None):
        self.o, self.m, self.imm, self.tag = o, frozenset(m), imm, tag
        self.h = hash(o) if imm else None


CLS = {'mut': S.MutNodeSet, 'imm': S.ImmNodeSet, 'submut': SubMut, 'subimm': SubImm}


def observe(v, pool, what):
    o, m = v.o, v.m
    ids = [id(x) for x in o]
    if len(ids) != len(m) or set(ids) != m:
        raise Violation('%s: iterates over %d elements %r, want %d %r' % (what, len(ids), name(pool, ids), len(m), name(pool, m)))
    if len(o) != len(m):
        raise Violation('%s: len %d, want %d' % (what, len(o), len(m)))
    if bool(o) != bool(m):
        raise Violation('%s: bool %r' % (what, bool(o)))
    for x in pool:
        if (x in o) != (id(x) in m):
            raise Violation('%s: membership of %s is %r' % (what, name(pool, [id(x)]), x in o))
    if o.is_immutable is not v.imm or isinstance(o, S.ImmNodeSet) is not v.imm:
        raise Violation('%s: is_immutable' % what)
    if v.imm and hash(o) != v.h:
        raise Violation('%s: hash changed' % what)


def name(pool, ids):
    d = {id(x): i for i, x in enumerate(pool)}
    return sorted((d.get(i, 'alien') for i in ids), key=str)


def run(d, st):
    pool = build_pool(d['pool'])
    vs = []
    tags = [None, 'tagA', 'tagB']
    seen_bin = False

    def operand(spec):
        """-> (object, model set or None, kind, fails)"""
        if spec[0] == 'v' and vs:
            w = vs[spec[1] % len(vs)]
            return w.o, w.m, w, False
        if spec[0] == 'v':
            return [], frozenset(), None, False
        items = [pool[i % len(pool)] for i in spec[2]]
        it, fails = make_iter(spec[1], items)
        return it, frozenset(map(id, items)), None, fails

    def put(v, pos):
        if len(vs) < 6:
            vs.append(v)
        else:
            vs[pos % len(vs)] = v

    for sn, (op, a, b, kind, bop, e, spec, extra) in enumerate(d['steps']):
        st.label(op)
        obj = pool[e % len(pool)]
        what = 'step %d %s' % (sn, op)
        v = vs[a % len(vs)] if vs else None
        if op == 'new' or v is None:
            c = CLS[kind]
            it, m, w, fails = operand(spec)
            if fails:
                raises((Boom, TypeError), c, it)
                st.label('new rejected')
                continue
            if sn % 5 == 4:
                o = c()
                m = frozenset()
            elif sn % 5 == 3:
                o = c(iterable=it)
            else:
                o = c(it)
            check(type(o) is c, '%s: type %r', what, type(o))
            if o is it:
                check(w is not None and w.imm, '%s: same object returned for a mutable set', what)
            nv = Var(o, m, kind.endswith('imm'), w.tag if o is it and w is not None else None)
            put(nv, b)
            observe(nv, pool, what)
        elif op == 'copy':
            c = CLS[kind]
            o = c(v.o)
            check(type(o) is c, '%s: type %r', what, type(o))
            if o is v.o:
                check(v.imm, '%s: same object for a mutable set', what)
            nv = Var(o, v.m, kind.endswith('imm'), v.tag if o is v.o else None)
            put(nv, b)
            observe(nv, pool, what)
            check(o == v.o, '%s: copy is not equal', what)
        elif op in ('bin', 'ibin', 'selfop'):
            if op == 'selfop':
                it, m, w, fails = v.o, v.m, v, False
                inplace = b % 2
            else:
                it, m, w, fails = operand(spec)
                inplace = op == 'ibin'
            if inplace and not v.imm:
                before = v.m
                try:
                    res = do_ibin(bop, v.o, it)
                except (Boom, TypeError) as exc:
                    if not fails:
                        raise
                    items = [id(pool[i % len(pool)]) for i in spec[2]]
                    ok = {before}
                    for k in range(len(items) + 1):
                        ok.add(m_bin(bop, before, frozenset(items[:k])))
                    got = frozenset(map(id, v.o))
                    check(got in ok, '%s %s: after a rejected operation %r, was %r', what, bop, name(pool, got), name(pool, before))
                    v.m = got
                    st.label('rejected')
                    observe(v, pool, what + ' rejected')
                    continue
                check(not fails, '%s: accepted failing operand', what)
                check(res is v.o, '%s: in-place %s returned another object', what, bop)
                v.m = m_bin(bop, before, m)
                observe(v, pool, '%s in-place %s' % (what, bop))
            else:
                f = do_ibin if inplace else do_bin
                tagclash = w is not None and w.tag is not v.tag
                try:
                    res = f(bop, v.o, it)
                except (Boom, TypeError, ValueError) as exc:
                    if not fails and not tagclash:
                        raise
                    st.label('rejected')
                    continue
                check(not fails, '%s: accepted failing operand', what)
                check(isinstance(res, S.ImmNodeSet), '%s: %s gives %r', what, bop, type(res))
                nv = Var(res, m_bin(bop, v.m, m), True, v.tag)
                check(getattr(res, '_hiding_tag_', None) is v.tag, '%s: tag %r', what, getattr(res, '_hiding_tag_', None))
                observe(nv, pool, '%s %s' % (what, bop))
                if inplace and b % 2:
                    vs[a % len(vs)] = nv
                else:
                    put(nv, b)
            if v.m and m:
                seen_bin = True
        elif op in ('add', 'append', 'discard', 'remove', 'tas', 'tac', 'pop', 'clear'):
            if v.imm:
                check(not hasattr(v.o, op), '%s: immutable set has %s', what, op)
                continue
            isin = id(obj) in v.m
            o = v.o
            if op == 'add':
                eq(o.add(obj), None, what)
                v.m |= {id(obj)}
            elif op == 'append':
                if isin:
                    raises(ValueError, o.append, obj)
                else:
                    eq(o.append(obj), None, what)
                v.m |= {id(obj)}
            elif op == 'discard':
                eq(o.discard(obj), None, what)
                v.m -= {id(obj)}
            elif op == 'remove':
                if isin:
                    eq(o.remove(obj), None, what)
                else:
                    raises(ValueError, o.remove, obj)
                v.m -= {id(obj)}
            elif op == 'tas':
                check(o.tas(obj) is isin, '%s result', what)
                v.m |= {id(obj)}
            elif op == 'tac':
                check(o.tac(obj) is isin, '%s result', what)
                v.m -= {id(obj)}
            elif op == 'pop':
                if v.m:
                    p = o.pop()
                    check(id(p) in v.m, '%s: popped a non-member', what)
                    v.m -= {id(p)}
                else:
                    raises(ValueError, o.pop)
            else:
                eq(o.clear(), None, what)
                v.m = frozenset()
            observe(v, pool, what)
        elif op == 'cmp':
            it, m, w, fails = operand(spec)
            if w is None:
                check((v.o == it) is False and (v.o != it) is True, '%s: equal to a non-nodeset', what)
                if not isinstance(it, (S.NodeSet,)):
                    for f in ('__lt__', '__le__', '__gt__', '__ge__'):
                        raises(TypeError, getattr(v.o, f), it)
            else:
                x, y = v.o, w.o
                got = [x == y, x != y, x < y, x <= y, x > y, x >= y]
                want = [v.m == m, v.m != m, v.m < m, v.m <= m, v.m > m, v.m >= m]
                eq(got, want, '%s of %r and %r', what, name(pool, v.m), name(pool, m))
                if v.imm and w.imm and v.m == m:
                    check(hash(x) == hash(y), '%s: equal sets with different hashes', what)
                    check(len({x, y}) == 1, '%s: as keys', what)
                if not v.imm:
                    raises(TypeError, hash, x)
        elif op == 'objat':
            if v.imm:
                if id(obj) in v.m:
                    check(v.o.obj_at(id(obj)) is obj, '%s: other object', what)
                else:
                    raises(ValueError, v.o.obj_at, id(obj))
                for off in (1, 4, 7, 8, -1, -8):
                    raises(ValueError, v.o.obj_at, id(obj) + off)
                raises(ValueError, v.o.obj_at, b)
            else:
                check(not hasattr(v.o, 'obj_at'), '%s', what)
        elif op == 'iter':
            # iterate while changing it: each yielded object is an element at that moment, none twice, and
            # all elements present throughout appear
            it = iter(v.o)
            always = set(v.m)
            got = []
            k = 0
            while 1:
                try:
                    x = next(it)
                except StopIteration:
                    break
                check(id(x) in v.m, '%s: iterator gives %s which is not an element', what, name(pool, [id(x)]))
                check(id(x) not in got, '%s: iterator gives an element twice', what)
                got.append(id(x))
                if not v.imm and k < len(extra):
                    y = pool[extra[k] % len(pool)]
                    if k % 3 == 2:
                        v.o.add(y)
                        v.m |= {id(y)}
                    else:
                        v.o.discard(y)
                        v.m -= {id(y)}
                        always.discard(id(y))
                k += 1
            check(always <= set(got), '%s: iterator skipped %r', what, name(pool, always - set(got)))
            raises(StopIteration, next, it)
        elif op == 'drop':
            vs.remove(v)
        elif op == 'tag':
            if not v.imm:
                t = tags[b % 3]
                if t is None:
                    if v.tag is not None:
                        del v.o._hiding_tag_
                else:
                    v.o._hiding_tag_ = t
                v.tag = t
        elif op == 'badarg':
            if b == 0:
                raises(TypeError, do_bin, bop, [obj], v.o) if not v.imm or True else None
            elif b == 1:
                raises(TypeError, do_bin, bop, v.o, 3.5)
            elif b == 2 and not v.imm:
                raises(TypeError, v.o.add)
                raises(TypeError, v.o.add, obj, obj)
                raises(TypeError, v.o.pop, obj)
            elif b == 3:
                raises(TypeError, CLS[kind], [], None, None)
            else:
                raises(TypeError, v.o.__len__, 1)
        for u in vs:
            if u is not v or u.imm:
                ids = [id(x) for x in u.o]
                if len(ids) != len(u.m) or set(ids) != u.m or len(u.o) != len(u.m):
                    raise Violation('%s changed another set: %r, was %r' % (what, name(pool, ids), name(pool, u.m)))
                if u.imm and hash(u.o) != u.h:
                    raise Violation('%s changed the hash of another set' % what)
    for u in vs:
        observe(u, pool, 'at the end')
    for i, u in enumerate(vs):
        for w in vs[:i]:
            check((u.o == w.o) is (u.m == w.m), 'equality at the end')
    st.nontrivial(seen_bin)


FACETS = {'hist': (1, gen, run)}
