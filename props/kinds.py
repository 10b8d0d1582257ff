"""Model of the equivalence relations: what class an object is in, told from the object itself,
from its owner and from its referrers."""
import ctypes
import gc
import sys
import types
from props import graph
from props.hpy import *

MODULES = types.ModuleType


def dict_slot(o):
    """The attribute dictionary of o, without making one; None if it has none or it cannot be told"""
    t = type(o)
    if isinstance(o, type):
        return next((x for x in gc.get_referents(o.__dict__) if type(x) is dict), None)
    if t.__flags__ & graph.MANAGED_DICT:
        return o.__dict__
    off = t.__dictoffset__
    if off > 0:
        p = ctypes.c_void_p.from_address(id(o) + off).value
        if p:
            for x in gc.get_referents(o):
                if id(x) == p:
                    return x
        return None
    if off < 0:
        try:
            return object.__getattribute__(o, '__dict__')
        except AttributeError:
            return None
    return None


def builtin_types():
    out = {}
    todo = [object]
    while todo:
        t = todo.pop()
        if id(t) not in out:
            out[id(t)] = t
            todo.extend(type.__subclasses__(t))
    return [t for t in out.values() if not t.__flags__ & graph.HEAPTYPE]


class Model:
    """of the objects in w (dict id -> object), with referrers inv (dict id -> dict id -> object)"""

    def __init__(self, w, inv, hv):
        self.w = w
        self.inv = inv
        self.hv = hv
        self._owner = {}
        self._stat = None

    def owner(self, d):
        """The object whose attribute dictionary the dictionary d is, or None"""
        r = self._owner.get(id(d), self)
        if r is self:
            r = None
            for o in gc.get_referrers(d):
                if type(o) is types.FrameType or o is self.w or type(o) is dict or type(o) is list:
                    continue
                if dict_slot(o) is d:
                    r = o
                    break
            if r is None:
                if self._stat is None:
                    self._stat = {id(dict_slot(t)): t for t in builtin_types()}
                r = self._stat.get(id(d))
            self._owner[id(d)] = r
        return r

    def clodo(self, o):
        if type(o) is dict:
            w = self.owner(o)
            return ('dictof', None if w is None else type(w))
        return ('type', type(o))

    def dictof(self, key, o):
        """class by the owner's class"""
        if type(o) is not dict:
            return ('notdict',)
        w = self.owner(o)
        return ('noowner',) if w is None else ('owner', key(w))

    def type(self, o):
        return type(o)

    def size(self, o):
        return self.hv.indisize_sum([o])

    def id(self, o):
        return id(o)

    idset = id

    def unity(self, o):
        return 0

    def module(self, o):
        return id(o) if type(o) is MODULES else None

    def referrers(self, o):
        return self.inv.get(id(o), {}).values()

    def refdby(self, key, o):
        return frozenset(key(r) for r in self.referrers(o))

    def rcs(self, o):
        return self.refdby(self.clodo, o)

    def via(self, o):
        s = set()
        for r in self.referrers(o):
            rel = self.hv.relate(r, o)
            for k, l in enumerate(rel):
                for x in l:
                    s.add((k, x))
        return frozenset(s)

    def key(self, name):
        """name -> classification function; name is a nested description
        'Type', ['dictof', x], ['refdby', x], ['and', x, y...], ['biper', ids], ['findex', ...]"""
        if isinstance(name, str):
            return getattr(self, name.lower())
        op = name[0]
        if op == 'dictof':
            k = self.key(name[1])
            return lambda o: self.dictof(k, o)
        if op == 'refdby':
            k = self.key(name[1])
            return lambda o: self.refdby(k, o)
        if op == 'and':
            ks = [self.key(x) for x in name[1:]]
            return lambda o: tuple(k(o) for k in ks)
        raise KeyError(name)


def er_of(h, name):
    """The session's equivalence relation of a description"""
    if isinstance(name, str):
        return getattr(h, name)
    op = name[0]
    if op in ('dictof', 'refdby'):
        return getattr(er_of(h, name[1]), op)
    r = er_of(h, name[1])
    for x in name[2:]:
        r = r & er_of(h, x)
    return r


def gen_er(r, depth=2, refs=True):
    base = ['Type', 'Clodo', 'Size', 'Id', 'Module', 'Unity', 'Idset'] + (['Rcs', 'Via'] if refs else [])
    x = r.random()
    if depth == 0 or x < 0.5:
        return r.choice(base)
    if x < 0.68:
        return ['dictof', gen_er(r, depth - 1, refs)]
    if x < 0.8 and refs:
        return ['refdby', gen_er(r, depth - 1, refs)]
    return ['and'] + [gen_er(r, depth - 1, refs) for _ in range(r.pick(2, 2, 3))]


# ---------------------------------------------------------------- kinds

CMPS = ('<', '<=', '==', '!=', '>=', '>')


def cmp_with(le, a, b, cmp):
    """a cmp b for the partial order le"""
    if cmp == '==':
        return a == b
    if cmp == '!=':
        return a != b
    if cmp == '<=':
        return le(a, b)
    if cmp == '<':
        return a != b and le(a, b)
    if cmp == '>=':
        return le(b, a)
    return a != b and le(b, a)


def subtype(a, b):
    return any(x is b for x in type.__dict__['__mro__'].__get__(a))


def subset(a, b):
    return a <= b


def er_le(name):
    """the order that alternative kinds of a relation use; None: it has none"""
    if name == 'Type':
        return subtype
    if name in ('Size', 'Rcs', 'Via') or name[0] == 'refdby':
        return subset
    return None


class Unavailable(Exception):
    """The kind cannot be made in this way"""


class Exprs:
    """builds kinds of descriptions, with the predicate they should be, over the targets T"""

    def __init__(self, h, M, T, X, reachable, st=None):
        self.h, self.M, self.T, self.X, self.reachable, self.st = h, M, T, X, reachable, st

    def obj(self, i):
        return self.T[i % len(self.T)]

    def build(self, d):
        """-> (kind, predicate)"""
        return getattr(self, 'b_' + d[0])(*d[1:])

    def alts(self, name, o, cmp):
        """predicate of the alternative kind of the class of o"""
        M = self.M
        if name == 'Clodo':
            c = M.clodo(o)
            if c[0] == 'type':
                name = 'Type'
            elif c[1] is None:
                raise Unavailable
            else:
                return self.alts(['dictof', 'Type'], o, cmp)
        if name[0] == 'dictof':
            c = M.dictof(M.key(name[1]), o)
            if c[0] != 'owner':
                raise Unavailable
            inner = self.alts(name[1], M.owner(o), cmp)

            def dpred(x):
                if type(x) is not dict:
                    return False
                w = M.owner(x)
                return w is not None and inner(w)
            return dpred
        if cmp in ('==', '!='):
            key = M.key(name)
            kc = key(o)
            return lambda x: (key(x) == kc) == (cmp == '==')
        le = er_le(name)
        if le is None:
            raise Unavailable
        key = M.key(name)
        kc = key(o)
        return lambda x: cmp_with(le, key(x), kc, cmp)

    def b_cls(self, name, i, how=0):
        """the class of an object"""
        h = self.h
        o = self.obj(i)
        er = er_of(h, name)
        if how == 0:
            k = er[h.iso(o)]
        elif how == 1:
            k = h.iso(o).by(er).kind
        elif how == 2:
            k = next(row for row in self.X.by(er).partition.get_rows() if any(x is o for x in row.set.nodes)).kind
        else:
            k = er[h.View.immnodeset([o])]
        key = self.M.key(name)
        kc = key(o)
        return k, lambda x: key(x) == kc

    def b_many(self, name, idx):
        """the classes of several objects"""
        h = self.h
        objs = [self.obj(i) for i in idx]
        k = er_of(h, name)[h.iso(*objs)]
        key = self.M.key(name)
        kc = {key(o) for o in objs}
        return k, lambda x: key(x) in kc

    def b_alt(self, name, i, cmp, how=0):
        o = self.obj(i)
        k, p = self.b_cls(name, i, how)
        try:
            pred = self.alts(name, o, cmp)
        except Unavailable:
            if cmp not in ('==', '!=') and name[0] != 'and':
                raises((ValueError, AttributeError), lambda: k.alt(cmp))
            return k, p
        if cmp == '!=' and (name[0] == 'dictof' or name == 'Clodo'):
            # of the owner's class, or of everything
            raise Unavailable
        try:
            return k.alt(cmp), pred
        except (ValueError, AttributeError):
            if name in ('Type', 'Size') or name in ('Rcs', 'Via') and self.M.key(name)(o):
                raise
            raise Unavailable

    def b_con(self, name, i, how=0):
        """kinds made by calling the equivalence relation"""
        h, M = self.h, self.M
        o = self.obj(i)
        if name == 'Type':
            t = type(o)
            if how % 3 == 0:
                k = h.Type(t)
            elif how % 3 == 1:
                k = h.Type(h.tc_repr(t)) if self.reachable(t) and t.__module__ and '.' not in t.__name__ and ' ' not in t.__name__ + t.__module__ and '<' not in t.__name__ else h.Type(t)
            else:
                k = t
            return k, lambda x: type(x) is t
        if name == 'Clodo':
            c = M.clodo(o)
            if c[0] == 'type':
                k = h.Clodo(c[1])
            else:
                k = h.Clodo(dictof=() if c[1] is None else c[1])
            return k, lambda x: M.clodo(x) == c
        if name == 'Size':
            n = M.size(o)
            return h.Size(n), lambda x: M.size(x) == n
        if name == 'Id':
            if not self.reachable(o):
                raise Unavailable
            return h.Id(id(o)), lambda x: x is o
        if name == 'Module':
            if type(o) is MODULES:
                if sys.modules.get(getattr(o, '__name__', None)) is o and how % 2:
                    k = h.Module(o.__name__)
                else:
                    k = h.Module(at=id(o))
                return k, lambda x: x is o
            return h.Module(), lambda x: type(x) is not MODULES
        if name == 'Unity':
            return [h.Anything, h.Unity(), ~h.Nothing][how % 3], lambda x: True
        if name == 'Idset':
            return h.Idset(o), lambda x: x is o
        raise Unavailable

    def b_condict(self, name, form, i):
        """kinds of dictionaries, from the kind of their owner"""
        h, M = self.h, self.M
        er = er_of(h, name).dictof
        if form == 0:
            return er(None), lambda x: type(x) is not dict
        if form == 1:
            return er(h.Nothing), lambda x: type(x) is dict and M.owner(x) is None
        k, p = self.b_cls(name, i) if form < 4 else self.b_set([i, i + 1])
        if form == 2:
            k = er(k)
        else:
            k = k.dictof

        def pred(x):
            if type(x) is not dict:
                return False
            w = M.owner(x)
            return w is not None and p(w)
        return k, pred

    def b_conref(self, name, idx, form):
        """kinds by referrers, from the kinds of the referrers"""
        h, M = self.h, self.M
        key = M.key(name)
        ks = [self.b_cls(name, i)[0] for i in idx]
        kc = frozenset(key(self.obj(i)) for i in idx)
        er = er_of(h, name)
        sokind = h._parent.Classifiers.sokind
        try:
            if form == 0 or not ks:
                k = er.refdby(*ks)
            elif form == 1:
                k = er.refdby(sokind(*ks))
            elif form == 2:
                sk = sokind(*ks)
                if sk.er is not er:
                    # the classes of Clodo are kinds of Type, for instance
                    raise Unavailable
                k = sk.refdby
            else:
                k = er.refdby(sokind(*ks[:1]), *ks[1:])
        except ValueError:
            # kinds of another relation than the one that gave them
            if name in ('Type', 'Size', 'Id') or name == 'Clodo' and form == 0:
                raise
            raise Unavailable
        return k, lambda x: M.refdby(key, x) == kc

    def b_set(self, idx):
        objs = [self.obj(i) for i in idx]
        s = {id(o) for o in objs}
        return self.h.iso(*objs), lambda x: id(x) in s

    def b_biper(self, d, i):
        k, p = self.build(d)
        k = self.us(k)
        return k.biper(i), lambda x: i == (0 if p(x) else 1)

    def b_findex(self, ds, i):
        kps = [self.build(d) for d in ds]
        er = self.h.findex(*[self.us(k) for k, p in kps])

        def idx(x):
            for j, (k, p) in enumerate(kps):
                if p(x):
                    return j
            return len(kps)
        return er(i), lambda x: idx(x) == i

    def us(self, k):
        """types are turned into kinds where an operand is a kind; here explicitly"""
        return self.h.Type(k) if isinstance(k, type) else k

    def b_not(self, d):
        k, p = self.build(d)
        return ~self.us(k), lambda x: not p(x)

    def b_op(self, op, a, b, plain=False):
        ka, pa = self.build(a)
        kb, pb = self.build(b)
        if plain and isinstance(kb, type):
            ka = self.us(ka)
        elif plain and isinstance(ka, type):
            kb = self.us(kb)
        else:
            ka, kb = self.us(ka), self.us(kb)
        if op == '|':
            return ka | kb, lambda x: pa(x) or pb(x)
        if op == '&':
            return ka & kb, lambda x: pa(x) and pb(x)
        if op == '-':
            return ka - kb, lambda x: pa(x) and not pb(x)
        return ka ^ kb, lambda x: pa(x) != pb(x)


def gen_kind(r, refs=True, sets=False):
    x = r.random()
    i = r.randrange(40)
    if x < 0.3:
        return ['cls', gen_er(r, r.pick(0, 1, 2), refs), i, r.randrange(4)]
    if x < 0.38:
        return ['many', gen_er(r, r.pick(0, 1, 1), refs), [r.randrange(40) for _ in range(r.randint(1, 4))]]
    if x < 0.6:
        e = r.weighted([(4, 'Type'), (4, 'Size'), (2, 'Clodo'), (2, ['dictof', 'Type']), (1, ['dictof', ['dictof', 'Type']]), (1, 'Id'), (1, 'Module')] +
                       ([(3, 'Rcs'), (3, 'Via'), (1, ['refdby', 'Type']), (1, ['refdby', 'Size']), (1, ['dictof', 'Rcs'])] if refs else []))
        return ['alt', e, i, r.choice(CMPS), r.randrange(4)]
    if x < 0.78:
        return ['con', r.pick('Type', 'Type', 'Clodo', 'Clodo', 'Size', 'Id', 'Module', 'Unity', 'Idset'), i, r.randrange(6)]
    if x < 0.87:
        return ['condict', gen_er(r, r.pick(0, 1), refs), r.pick(0, 1, 2, 3, 4), i]
    if refs and (x < 0.95 or not sets):
        return ['conref', gen_er(r, r.pick(0, 1), refs), [r.randrange(40) for _ in range(r.pick(0, 1, 1, 2, 3))], r.randrange(4)]
    if sets:
        return ['set', [r.randrange(40) for _ in range(r.randint(1, 5))]]
    return ['con', 'Type', i, 0]


def gen_expr(r, depth, refs=True, sets=False):
    x = r.random()
    if depth == 0 or x < 0.25:
        return gen_kind(r, refs, sets)
    if x < 0.4:
        return ['not', gen_expr(r, depth - 1, refs, sets)]
    if x < 0.47:
        return ['biper', gen_expr(r, depth - 1, refs, sets), r.pick(0, 0, 1, 2)]
    if x < 0.55:
        return ['findex', [gen_expr(r, depth - 1, refs, sets) for _ in range(r.randint(1, 3))], r.randrange(4)]
    return ['op', r.choice('||&&-^'), gen_expr(r, depth - 1, refs, sets), gen_expr(r, depth - 1, refs, sets), r.chance(0.3)]
