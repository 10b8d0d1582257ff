"""P15: kinds and equivalence relations classify truthfully."""
import gc
import os
import sys
import types
import weakref
from props.hpy import *
from props import graph, p07, p10, values, popul, kinds

SPEC = dict(
    id='P15', quick=10000, thorough=400000,
    rule='A case is one of three. (sel) A population (generated object graph, data objects, same-named classes) below a root, a subset of what it reaches, and 1 to 6 kinds: classes of objects by generated relations, kinds made by '
         'calling the relations, alternatives by the six comparisons, kinds of dictionaries and of referrers made from kinds, and index-of-first-match relations. Each kind is applied to the subset, to single objects, and after a '
         'round trip through its printed form, and compared with a predicate of the model. (prod) Objects made at generated files and lines while allocations are traced, classified and selected by producer. (cli) Native '
         'classifiers nested from types, identities, sizes, user functions (that may raise or give fresh kinds), products, referrer sets and first-match indexes. '
         'Non-trivial: at least 2 kinds selected some but not all of the objects (sel), one did (prod), a classifier gave more than one class (cli).',
    assumptions=['classes by model: type, owner of a dictionary, real size, identity, referrers by inverting the reference relation',
                 'types are ordered by inheritance, sizes by number, sets of referrer kinds and of relations by inclusion'])


def setup():
    gc.disable()
    graph.strip_modules()
    p07.setup()


def gen_sel(r):
    ks = []
    for _ in range(r.randint(1, 6)):
        k = kinds.gen_kind(r)
        x = r.random()
        if x < 0.1:
            k = ['biper', k, r.pick(0, 0, 1, 2)]
        elif x < 0.2:
            k = ['findex', [k] + [kinds.gen_kind(r) for _ in range(r.randint(0, 2))], r.randrange(4)]
        elif x < 0.26:
            k = ['not', k]
        ks.append(k)
    return {'p': popul.gen_pop(r), 'k': ks, 'repr': r.chance(0.5), 'one': [r.randrange(40) for _ in range(3)]}


def simple(k):
    """kinds whose printed form is known to be an expression"""
    return k[0] in ('con', 'cls', 'alt') and k[1] in ('Type', 'Size', 'Clodo') or k[0] == 'not' and simple(k[1])


class World:
    def __init__(self, d):
        self.P = popul.Pop(d)
        self.h = hp()
        self.V = self.h.View
        self.old = self.V.root
        self.V.root = self.P.root
        gc.collect()
        w, inv = self.P.world()
        self.w = w
        self.M = kinds.Model(w, inv, self.V.hv)
        self.T = self.P.targets()
        self.names = self.P.names

    def reachable(self, o):
        return id(o) in self.w or gc.is_tracked(o)

    def exprs(self):
        return kinds.Exprs(self.h, self.M, self.T, self.h.iso(*self.T), self.reachable)

    def close(self):
        self.V.root = self.old
        self.P.g.clear()


def run_sel(d, st):
    W = World(d['p'])
    try:
        select(W, d, st)
    finally:
        W.close()


def select(W, d, st):
    T, h, names = W.T, W.h, W.names
    if not T:
        return
    E = W.exprs()
    X = E.X
    some = 0
    for kd in d['k']:
        try:
            k, p = E.build(kd)
        except kinds.Unavailable:
            st.label('unavailable')
            continue
        st.label(kd[0])
        want = {id(o) for o in T if p(o)}
        some += 0 < len(want) < len(T)
        k1 = k
        y = X & k
        got = ids(y.nodes)
        if got != want:
            raise Violation('%s: selected %s, want %s' % (kd, names.set(y.nodes), names.set(o for o in T if id(o) in want)))
        k = E.us(k)
        eq(ids((k & X).nodes), want, 'selected by %s, operands exchanged', kd)
        eq(ids((X - k).nodes), {id(o) for o in T} - want, 'left by %s', kd)
        for i in d['one']:
            o = E.obj(i)
            eq(o in k, id(o) in want, '%s: membership of %s', kd, names.of(o))
            eq((h.iso(o) <= k), id(o) in want, '%s: subset of single %s', kd, names.of(o))
        check((X <= k) == (len(want) == len(T)), '%s: X <= k is %s, selected %d of %d', kd, X <= k, len(want), len(T))
        if d['repr']:
            s = repr(k)
            try:
                k2 = eval(s, {'hpy': lambda: h})
            except Exception as e:
                # not every kind has a printed form that can be evaluated; one that has must be the same kind
                st.label('repr ' + type(e).__name__)
                if not simple(kd) or 'No object found' in str(e):
                    continue
                raise Violation('%s: printed form %s: %r' % (kd, s, e))
            st.label('repr')
            z = X & k2
            if ids(z.nodes) != want:
                raise Violation('%s: printed form %s selects %s, want %s' % (kd, s, names.set(z.nodes), names.set(o for o in T if id(o) in want)))
    st.nontrivial(some >= 2)



# ---------------------------------------------------------------- producers

EXPRS = ['object()', '[]', '[1, 2]', '{}', '{1: 2}', 'set()', 'bytearray(5)', 'C()', 'C(7)', 'S()', '(n, n)', 'float(n) + .5', 'str(n) * 9', 'b"x" * (n + 40)', '(lambda: n)',
         'type("T", (), {})', 'L()', 'D()', 'I(n + 1000)', '(x for x in ())', 'deque()', 'wref(C)', 'range(n, n + 3)', 'bytes(n + 30)', 'frozenset([n])', 'complex(n, 1)', 'E()', 'Mix()']
FILES = ['m.py', 'ab.py', 'abc.py', 'd/m.py', 'd/abc/x.py', '<string>', '']


def prod_env():
    import collections

    class C:
        def __init__(self, *a):
            if a:
                self.x = a

    class S:
        __slots__ = 'a', '__weakref__'

    class L(list):
        pass

    class D(dict):
        __slots__ = ()

    class I(int):
        pass

    class E(Exception):
        pass

    class Mix(tuple):
        def __new__(cls):
            x = tuple.__new__(cls, (1, 2))
            x.a = 1
            return x
    return dict(C=C, S=S, L=L, D=D, I=I, E=E, Mix=Mix, deque=collections.deque, wref=weakref.ref)


def gen_prod(r):
    line = lambda: r.pick(1, 2, 3, 3, 10, 11, 200)
    k = []
    for _ in range(r.randint(1, 6)):
        x = r.random()
        if x < 0.2:
            k.append(['at', r.randrange(20), r.chance(0.3), r.choice(('',) + kinds.CMPS)])
        elif x < 0.35:
            k.append(['fl', r.randrange(len(FILES) + 1), r.pick(None, line(), line()), r.choice(('',) + kinds.CMPS)])
        elif x < 0.5:
            k.append(['unknown', r.choice(('',) + kinds.CMPS)])
        elif x < 0.7:
            k.append(['prefix', r.randrange(len(FILES)), r.randrange(12)])
        elif x < 0.85:
            k.append(['scope', r.randrange(4)])
        else:
            k.append(['range', line(), line()])
    return {'o': [[r.randrange(len(FILES)), line(), r.choice(EXPRS), r.chance(0.2), r.chance(0.15)] for _ in range(r.randint(1, 12))],
            'sc': r.randrange(30), 'nf': r.pick(1, 1, 2, 5), 'k': k, 'not': r.chance(0.3)}


def prod_le(a, b):
    if a is None or b is None:
        return a is b
    if a[0] is not None and b[0] is not None and not a[0].startswith(b[0]):
        return False
    return a[1] is None or b[1] is None or a[1] <= b[1]


def run_prod(d, st):
    import tracemalloc
    T, where = [], []
    env = prod_env()
    env['T'] = T
    m = sys.modules['gpm'] = types.ModuleType('gpm')
    env['__name__'] = 'gpm'
    dirn = os.environ['VERIF_SCRATCH']
    src = os.path.join(dirn, 'sc%d.py' % os.getpid())
    pad = d['sc'] % 6
    text = '\n' * pad + 'def f():\n    T.append([])\n    def g(n):\n        T.append(\n            C())\n    g(3)\n    T.append({})\nclass K:\n    T.append(set())\n    def m(self):\n        T.append(S())\nT.append([3])\n'
    with open(src, 'w') as fo:
        fo.write(text)
    import linecache
    linecache.checkcache(src)
    codes = []
    for fi, line, ex, indir, before in d['o']:
        fn = FILES[fi]
        body = 'T.append(%s)' % ex
        if indir:
            body = 'def f():%s\nf()' % body
        codes.append((compile('\n' * (line - 1) + body, fn, 'exec'), fn, line, before))
    mod = compile(text, src, 'exec')
    m.__file__ = src
    h = hp()
    n = 0
    for c, fn, line, before in codes:
        if before:
            env['n'] = n
            exec(c, env)
    n0 = len(T)
    raises(RuntimeError, lambda: h.iso(*T, T).by(h.Prod).partition)
    tracemalloc.start(d['nf'])
    try:
        for n, (c, fn, line, before) in enumerate(codes):
            if not before:
                env['n'] = n
                exec(c, env)
                where.append((fn, line))
        exec(mod, env)
        env['f']()
        env['K']().m()
        T2 = list(T)
        cla = {}
        for x in T2:
            tb = tracemalloc.get_object_traceback(x)
            cla[id(x)] = None if tb is None else (tb[-1].filename, tb[-1].lineno)
        for x, w in zip(T2[n0:], where):
            if type(x) in (list, set, bytearray, env['C'], env['S'], env['L'], env['D'], env['E']) and cla[id(x)] not in (w, None):
                raise HarnessError('produced at %s, %s' % (w, cla[id(x)]))
        X = h.iso(*T2)
        scopes = [env['f'], env['K'], env['K'].m, [x for x in env['f'].__code__.co_consts if hasattr(x, 'co_name')][0]]
        rows = X.by(h.Prod).partition.get_rows()
        got = {}
        for row in rows:
            ks = {cla[id(x)] for x in row.set.nodes}
            check(len(ks) == 1, 'row %s has classes %s', row.name, ks)
            c = ks.pop()
            check(c not in got, 'class %s in two rows', c)
            got[c] = 1
            eq(row.name, 'unknown' if c is None else '%s:%d' % c, 'name of row')
            eq(row.kind.arg, c, 'kind of row')
        eq(set(got), {cla[id(x)] for x in T2}, 'classes')
        some = 0
        for kd in d['k']:
            cmp = ''
            if kd[0] == 'at':
                o = T2[kd[1] % len(T2)]
                c = cla[id(o)]
                if kd[2]:
                    k = h.Prod[h.iso(o)]
                elif c is None:
                    k = h.Prod()
                else:
                    k = h.Prod(*c) if kd[1] % 2 else h.Prod(filename=c[0], lineno=c[1])
                cmp = kd[3]
            elif kd[0] == 'fl':
                c = (None if kd[1] == len(FILES) else FILES[kd[1]], kd[2])
                k = h.Prod(*c)
                cmp = kd[3]
            elif kd[0] == 'unknown':
                c = None
                k = h.Prod()
                cmp = kd[1]
            if kd[0] == 'prefix':
                pre = FILES[kd[1]][:kd[2]]
                k = h.Prod(pre)
                p = lambda a: a is not None and a[0].startswith(pre)
            elif kd[0] == 'scope':
                sc = scopes[kd[1]]
                k = h.Prod(sc)
                lo = {0: 1, 1: 8, 2: 10, 3: 3}[kd[1]] + pad
                hi = {0: 7, 1: 11, 2: 11, 3: 5}[kd[1]] + pad
                p = lambda a: a is not None and a[0] == src and lo <= a[1] <= hi
            elif kd[0] == 'range':
                lo, hi = kd[1], kd[2]
                k = h.Prod(None, lo).alt('>=') & h.Prod(None, hi).alt('<=')
                p = lambda a: a is not None and lo <= a[1] <= hi
            elif cmp:
                k = k.alt(cmp)
                p = lambda a: kinds.cmp_with(prod_le, a, c, cmp)
            else:
                p = lambda a: a == c
            st.label(kd[0] + cmp)
            want = {id(o) for o in T2 if p(cla[id(o)])}
            some += 0 < len(want) < len(T2)
            for kk, ww in ((k, want), (~k, {id(o) for o in T2} - want)) if d['not'] else ((k, want),):
                g = ids((X & kk).nodes)
                check(g == ww, '%s: selected %s, want %s', kd, [cla[i] for i in g], [cla[i] for i in ww])
        for x in T2[:4]:
            tb = tracemalloc.get_object_traceback(x)
            pr = h.iso(x).prod
            if tb is None:
                check(pr is None, 'producer %s of object without one', pr)
            else:
                eq(str(pr).split('\n'), ['Traceback (most recent call first):'] + tb.format(most_recent_first=True), 'printed producer')
        st.nontrivial(some >= 1)
    finally:
        tracemalloc.stop()
        del sys.modules['gpm']
        os.unlink(src)


# ---------------------------------------------------------------- native classifiers

class Kd:
    """kinds of a user-defined classifier: equal ones are not identical"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Kd) and o.v == self.v

    def __hash__(self):
        return hash(self.v)


def gen_cl(r, depth):
    x = r.random()
    if depth == 0 or x < 0.3:
        return [r.pick('type', 'id', 'none', 'idset', 'size')]
    if x < 0.65:
        return ['user', gen_cl(r, depth - 1), r.randrange(40), r.randrange(1, 5), r.pick('const', 'new', 'memo', 'memo', 'none'), r.pick(0, 0, 0, 0, 0, 1, 2)]
    if x < 0.8:
        return ['and'] + [gen_cl(r, depth - 1) for _ in range(r.pick(1, 2, 2, 3))]
    if x < 0.9:
        return ['rcs', gen_cl(r, depth - 1)]
    return ['findex'] + [[gen_cl(r, depth - 1), r.randrange(40), r.pick('==', '==', '!=')] for _ in range(r.randint(1, 3))]


def gen_cli(r):
    return {'p': popul.gen_pop(r, hi=6, vals=6), 'c': [gen_cl(r, r.pick(1, 2, 2, 3)) for _ in range(r.randint(1, 3))], 'm': r.randrange(1000), 'sel': [r.randrange(40) for _ in range(3)]}


class Boom(Exception):
    pass


class Clis:
    def __init__(self, W):
        self.W = W
        self.hv = W.V.hv
        self.T = W.T
        self.pos = {id(o): i for i, o in enumerate(W.T)}
        self.table = {}

    def intern(self, k):
        return self.table.setdefault(k, k)

    def make(self, d):
        """-> (classifier, model: object -> hashable or Boom, kind_of: native kind -> the same, identical: kinds are equal only when identical)"""
        hv, W, M = self.hv, self.W, self.W.M
        op = d[0]
        if op == 'type':
            return hv.cli_type(), lambda o: type(o), lambda k: k
        if op == 'id':
            return hv.cli_id(), lambda o: id(o), lambda k: id(k)
        if op == 'none':
            return hv.cli_none(), lambda o: 0, lambda k: 0 if k is None else k
        if op == 'idset':
            def one(k):
                k, = k
                return id(k)
            return hv.cli_idset({}), lambda o: id(o), one
        if op == 'size':
            return hv.cli_indisize({}), M.size, lambda k: k
        if op == 'user':
            cond, cm, ck = self.make(d[1])
            o = self.T[d[2] % len(self.T)]
            mod, mode, bad = d[3], d[4], d[5]
            try:
                kind = cond.classify(o)
                ko = cm(o)
            except Boom:
                raise kinds.Unavailable
            if unstable(d[1]) and kind is not None:
                raise kinds.Unavailable

            def val(x):
                i = self.pos.get(id(x), id(x) // 16)
                if bad and i % 7 == 3:
                    raise Boom(i)
                return i % mod

            def classify(x):
                v = val(x)
                if mode == 'none' and v == 0:
                    return None
                k = Kd(v)
                return k if mode == 'new' else self.intern(k)

            def model(x):
                if cm(x) != ko:
                    return None
                v = val(x)
                return None if mode == 'none' and v == 0 else v

            def memo(k):
                if bad == 2:
                    raise Boom('memo')
                return self.intern(k)
            return hv.cli_user_defined(cond, kind, classify, memo if mode == 'memo' else None), model, lambda k: None if k is None else k.v
        if op == 'and':
            ms = [self.make(x) for x in d[1:]]
            return hv.cli_and(tuple(m[0] for m in ms), {}), lambda o: tuple(m[1](o) for m in ms), lambda k: tuple(m[2](x) for m, x in zip(ms, k))
        if op == 'rcs':
            c, m, kk = self.make(d[1])
            return hv.cli_rcs(W.V.rg, c, {}), lambda o: frozenset(m(x) for x in M.referrers(o)), lambda k: frozenset(kk(x) for x in k)
        alts = []
        ps = []
        for cd, i, cmp in d[1:]:
            c, m, kk = self.make(cd)
            if unstable(cd):
                raise kinds.Unavailable
            o = self.T[i % len(self.T)]
            try:
                k, ko = c.classify(o), m(o)
            except Boom:
                raise kinds.Unavailable
            alts.append((c, k, cmp))
            ps.append((m, ko, cmp))

        def fm(o):
            for i, (m, ko, cmp) in enumerate(ps):
                if (m(o) == ko) == (cmp == '=='):
                    return i
            return len(ps)
        try:
            return hv.cli_findex(tuple(alts), {}), fm, lambda k: k
        except Boom:
            raise kinds.Unavailable


def unstable(d):
    """some kinds are made anew each time an object is classified"""
    return d[0] == 'user' and (d[4] == 'new' or unstable(d[1])) or d[0] in ('and', 'rcs') and any(unstable(x) for x in d[1:]) or \
        d[0] == 'findex' and any(unstable(x[0]) for x in d[1:])


def run_cli(d, st):
    W = World(d['p'])
    try:
        if W.T:
            natives(W, d, st)
    finally:
        W.close()


def natives(W, d, st):
    T = W.T
    some = 0
    C = Clis(W)
    W.h.iso(*T).byrcs.partition     # updates the referrer graph for the objects
    for cd in d['c']:
        try:
            c, model, kk = C.make(cd)
        except kinds.Unavailable:
            st.label('unavailable')
            continue
        if unstable(cd) and cd[0] != 'user':
            continue
        st.label(cd[0])
        want = {}
        errs = 0
        for o in T:
            try:
                w = model(o)
            except Boom as e:
                errs += 1
                raises(Boom, c.classify, o)
                continue
            want[id(o)] = w
            k = c.classify(o)
            eq(kk(k), w, '%s: class of %s', cd, W.names.of(o))
            if not unstable(cd):
                check(c.classify(o) is k, '%s: two kinds of %s', cd, W.names.of(o))
        if errs:
            st.label('raised')
            raises(Boom, c.partition, T)
            raises(Boom, c.epartition, T)
        ok = [o for o in T if id(o) in want]
        classes = {}
        for o in ok:
            classes.setdefault(want[id(o)], []).append(id(o))
        some += len(classes) > 1
        if cd[0] != 'id':
            # with objects as kinds, partition would compare the objects by value
            p = c.partition(ok)
            eq({kk(k): [id(o) for o in l] for k, l in p.items()}, classes, '%s: partition', cd)
            eq(len(p), len(classes), '%s: number of kinds', cd)
        if not unstable(cd):
            ep = c.epartition(ok)
            eq({kk(k): sorted(id(o) for o in ep[k]) for k in ep.get_domain()}, {k: sorted(l) for k, l in classes.items()}, '%s: partition to a graph', cd)
            eq(len(ep.get_domain()), len(classes), '%s: number of kinds of the graph', cd)
        if unstable(cd) and cd[0] == 'user':
            continue
        for i in d['sel']:
            o = T[i % len(T)]
            if id(o) not in want:
                continue
            w = want[id(o)]
            k = c.classify(o)
            try:
                sel = [id(x) for x in c.select(ok, k, '==')]
                nsel = [id(x) for x in c.select(ok, k, '!=')]
            except Boom:
                check(cd_raises(cd), '%s: select raised', cd)
                continue
            eq(sel, classes[w], '%s: selected by the class of %s', cd, W.names.of(o))
            eq(nsel, [id(x) for x in ok if want[id(x)] != w], '%s: selected by not the class of %s', cd, W.names.of(o))
    st.nontrivial(some >= 1)


def cd_raises(d):
    if isinstance(d, list):
        return bool(d) and d[0] == 'user' and d[5] == 2 or any(cd_raises(x) for x in d)
    return False


FACETS = {
    'sel': (6, gen_sel, run_sel),
    'prod': (2, gen_prod, run_prod),
    'cli': (2, gen_cli, run_cli),
}
