"""P21: bad arguments and hostile objects give exceptions, not crashes."""
import copy
import gc
import io
import operator
import pickle
import sys
import types
import weakref
from props.hpy import *
from guppy.heapy.heapyc import Horizon, ObjectClassifier, Relation
from guppy.sets import setsc as S
from pbt.core import Gen
try:
    import _testcapi
except ImportError:
    _testcapi = None

SPEC = dict(
    id='P21', quick=26000, thorough=600000, asan=True, stuck=300,
    rule='The native modules are built with AddressSanitizer. (call) A case is a pool of native objects of every type (also of subclasses, made without initialisation, tagged, of other sessions), ordinary values and hostile objects, and a history of '
         '1 to 25 calls: any native method, operator, item or attribute access, iteration, copy, pickle, type call, with arguments that are right, wrong in type, number, range or structure, or hostile: their methods raise, answer nonsense, collect garbage, '
         'or change or release objects of the pool at their k-th call. No crash, no report of the sanitizer, no SystemError; afterwards every native object of the pool is consistent, and when the pool is dropped every plain object '
         'has the references it had before. (fault) One native call while the k-th allocation fails, for consecutive k: the same conditions, and only MemoryError may be raised. (heap) Traversals, classifications and printing of populations of '
         'objects with hostile types, sizes, dictionaries, modules, metaclasses. Non-trivial: at least one call raised and one succeeded.',
    assumptions=['a crash of the interpreter itself under failing allocations would be reported too; none is known for the calls made',
                 'sizes of generated bit sets are either below 200000 or beyond what can be allocated'])

SETS = (S.NodeSet, S.BitSet)
NG = NodeGraph
HUGE = [1 << 62, -(1 << 62), (1 << 63) - 1, -(1 << 63), 1 << 63, 1 << 64, -(1 << 64), 1 << 200, (1 << 60) + 1, (1 << 57), (1 << 31) - 1 << 32]


ENV = {'__builtins__': {'__build_class__': __builtins__['__build_class__'] if isinstance(__builtins__, dict) else __builtins__.__build_class__}, '__name__': 'sterile'}
exec("""
class Mk:
    __slots__ = ('n', 'a', '__weakref__')

    def __init__(self, n):
        self.n = n
""", ENV)
Mk = ENV['Mk']
ENV['__builtins__'].clear()


class Odd(BaseException):
    pass


def sub(t):
    return type('Sub' + t.__name__, (t,), {})


SUBS = {t: sub(t) for t in (S.ImmNodeSet, S.MutNodeSet, S.MutBitSet, S.ImmBitSet, S.CplBitSet, S.NodeSet, S.BitSet, NG, HeapView, Relation, Horizon) if t.__flags__ & (1 << 10)}
TYPES = [S.ImmNodeSet, S.MutNodeSet, S.NodeSet, S.BitSet, S.ImmBitSet, S.CplBitSet, S.MutBitSet, NG, HeapView, Horizon, Relation, ObjectClassifier, type(RootState)]
CATS = {'mns': S.MutNodeSet, 'ins': S.ImmNodeSet, 'ns': S.NodeSet, 'bs': S.BitSet, 'mbs': S.MutBitSet, 'ibs': S.ImmBitSet, 'cbs': S.CplBitSet, 'ng': NG, 'hv': HeapView,
        'cli': ObjectClassifier, 'rel': Relation, 'hz': Horizon, 'rs': type(RootState), 'type': type, 'tuple': tuple, 'dict': dict, 'list': list, 'H': None, 'mk': Mk}
NATIVE = ('mns', 'ins', 'mbs', 'ibs', 'cbs', 'ng', 'hv', 'cli', 'rel', 'hz', 'rs')

# receiver -> method -> argument categories ('?' after a name: may be left out)
M = {
    'mns': dict(add=['any'], append=['any'], clear=[], discard=['any'], pop=[], remove=['any'], tas=['any'], tac=['any']),
    'ins': dict(obj_at=['addr']),
    'mbs': dict(add=['int'], append=['int'], clear=[], discard=['int'], pop=['int?'], remove=['int'], mutcopy=[], tas=['int'], tac=['int'], _indisize=[], __reduce__=[]),
    'ibs': dict(mutcopy=[], __reduce__=[]),
    'cbs': dict(mutcopy=[], __reduce__=[]),
    'ng': dict(add_edge=['any', 'any'], add_edges_n1=['iter', 'any'], as_flat_list=[], clear=[], copy=[], domain_covers=['iter'], domain_restricted=['ns'], get_domain=[], get_range=[],
               invert=[], inverted=[], relimg=['iter'], update=['edges'], updated=['edges']),
    'hv': dict(cli_and=['clis', 'dict'], cli_dictof=['ng', 'cli', 'any', 'any'], cli_findex=['ckcs', 'dict'], cli_id=['dict?'], cli_idset=['dict'], cli_indisize=['dict'],
               cli_inrel=['ng', 'dict', 'dict'], cli_none=[], cli_prod=['dict'], cli_rcs=['ng', 'cli', 'dict'], cli_type=[], cli_user_defined=['cli', 'any', 'call', 'callnone'],
               delete_extra_type=['type'], indisize_sum=['iter'], heap=[], numedges=['any', 'any'], reachable=['ns', 'ns'], reachable_x=['ns', 'ns'],
               register_hidden_exact_type=['type'], register__hiding_tag__type=['type'], relate=['any', 'any'], relimg=['iter'], shpathstep=['ng', 'ns', 'ns', 'ng?', 'int?'],
               update_dictowners=['ng'], update_referrers=['ng', 'ns'], update_referrers_completely=['ng']),
    'cli': dict(classify=['any'], partition=['iter'], epartition=['iter'], select=['iter', 'any', 'cmp']),
    'hz': dict(news=['iter']),
    'rs': dict(__dir__=[]),
}
FUNCS = {'immbit': ['int'], 'immbitrange': ['int?', 'int?', 'int?'], 'immbitset': ['bits?'], '_bs': ['int', 'any']}
NEWS = {'mns': (S.MutNodeSet, ['iter?']), 'ins': (S.ImmNodeSet, ['iter?', 'any?']), 'mbs': (S.MutBitSet, ['bits?']), 'ibs': (S.ImmBitSet, ['bits?']), 'cbs': (S.CplBitSet, ['ibs']),
        'ng': (NG, ['edges?', 'any?']), 'hv': (HeapView, ['any', 'defs']), 'hz': (Horizon, ['hzset']), 'rel': (Relation, ['relkind', 'any']), 'cli': (ObjectClassifier, []), 'rs': (type(RootState), []),
        'bs': (S.BitSet, []), 'ns': (S.NodeSet, [])}
BIN = ['and_', 'or_', 'xor', 'sub', 'iand', 'ior', 'ixor', 'isub', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'lshift', 'contains', 'getitem', 'delitem', 'rand', 'ror', 'rsub', 'rxor', 'rin']
UN = ['len', 'hash', 'bool', 'repr', 'str', 'int', 'invert', 'iter', 'list', 'next', 'copy', 'pickle', 'dir', 'del', 'gc', 'index', 'float', 'sizeof', 'refs', 'attrs', 'vars', 'reversed', 'deep']
INT_OPS = {'lshift', 'getitem', 'delitem', 'contains'}

HD_ = ['__iter__', '__next__', '__len__', '__getitem__', '__contains__', '__hash__', '__eq__', '__lt__', '__le__', '__gt__', '__ge__', '__ne__', '__bool__', '__index__', '__int__', '__repr__', '__str__', '__call__', '__and__',
       '__rand__', '__or__', '__ror__', '__sub__', '__rsub__', '__xor__', '__sizeof__', '__del__', '__getattr__', '__reduce__', '__getattribute__', '__class__', '__length_hint__', '__rlshift__', '__instancecheck__']
ACTS = ['ok', 'raise', 'memerr', 'odd', 'none', 'notimpl', 'huge', 'neg', 'str', 'self', 'stop', 'gc', 'clear', 'add', 'pop', 'drop', 'redo', 'tag', 'pair', 'float', 'pool', 'recur', 'int', 'dropall', 'indexerr', 'attrerr']
NV = 46


def gen_val(r):
    """a description of any value"""
    k = r.weighted([(4, 'p'), (3, 'm'), (2, 'v'), (2, 'h'), (1.5, 'l'), (1, 't'), (.5, 'self')])
    if k == 'h':
        return gen_h(r)
    if k in ('l', 't'):
        return [k, [gen_val(r) for _ in range(r.randint(0, 4))]]
    return [k, r.randrange(64)]


def gen_h(r, must=None):
    ds = [r.choice(HD_) for _ in range(r.pick(1, 1, 2, 3))]
    if must:
        ds = [must] + ds[:r.randrange(2)]
    return ['h', [[d, r.choice(ACTS), r.pick(0, 0, 1, 1, 2, 3, 5), r.randrange(64)] for d in ds]]


def gen_it(r, elem):
    """something to iterate over"""
    k = r.weighted([(4, 'set'), (3, 'list'), (1, 'gen'), (1.2, 'h'), (1, 'any'), (.7, 'it'), (.5, 'tuple'), (.3, 'dict')])
    if k == 'set':
        return ['c', r.pick('ns', 'ns', 'mns', 'ins', 'ng', 'H', 'list'), r.randrange(64)]
    if k in ('list', 'tuple', 'dict'):
        return [{'list': 'l', 'tuple': 't', 'dict': 'd'}[k], [elem(r) for _ in range(r.pick(0, 1, 2, 3, 5))]]
    if k == 'gen':
        return ['g', [elem(r) for _ in range(r.randint(0, 4))], r.choice(ACTS), r.randrange(5), r.randrange(64)]
    if k == 'h':
        return gen_h(r, r.pick('__iter__', '__next__', '__getitem__'))
    if k == 'it':
        return ['it', r.randrange(64)]
    return gen_val(r)


def gen_int(r):
    return r.weighted([(4, 'i'), (2, 'I'), (1, 'h'), (.7, 'any')])


def gen_arg(r, cat):
    if r.chance(.16):
        return gen_val(r)
    if cat == 'any':
        return gen_val(r)
    if cat == 'int':
        k = gen_int(r)
        return ['i', r.pick(r.randint(-70, 70), r.randint(-3, 3), r.randint(-100000, 100000))] if k == 'i' else ['I', r.randrange(64)] if k == 'I' else gen_h(r, '__index__') if k == 'h' else gen_val(r)
    if cat == 'bits':
        return r.pick(['c', 'bs', r.randrange(64)], ['l', [gen_arg(r, 'int') for _ in range(r.randint(0, 5))]], gen_arg(r, 'int'), gen_it(r, lambda r: gen_arg(r, 'int')))
    if cat == 'iter':
        return gen_it(r, gen_val)
    if cat == 'edges':
        return gen_it(r, lambda r: ['t', [gen_val(r) for _ in range(r.weighted([(8, 2), (1, 1), (1, 3), (.5, 0)]))]])
    if cat == 'clis':
        return ['t', [['c', 'cli', r.randrange(64)] if r.chance(.9) else gen_val(r) for _ in range(r.randint(0, 3))]]
    if cat == 'ckcs':
        return ['t', [['t', [['c', 'cli', r.randrange(64)] if r.chance(.9) else gen_val(r), gen_val(r), gen_arg(r, 'cmp')][:r.weighted([(9, 3), (1, 2)])]] for _ in range(r.randint(0, 3))]]
    if cat == 'cmp':
        return ['cmp', r.randrange(9)]
    if cat == 'call' or cat == 'callnone':
        return gen_h(r, '__call__') if r.chance(.8) or cat == 'call' else ['v', 0]
    if cat == 'addr':
        return r.pick(['addr', r.randrange(64)], gen_arg(r, 'int'))
    if cat == 'defs':
        return ['defs', r.randrange(8)]
    if cat == 'relkind':
        return ['i', r.randint(-1, 14)]
    if cat == 'hzset':
        return ['hzset', r.randrange(4)]
    return ['c', cat, r.randrange(64)]


def gen_args(r, sig):
    a = []
    for s in sig:
        if s.endswith('?'):
            if r.chance(.4):
                break
            s = s[:-1]
        a.append(gen_arg(r, s))
    if r.chance(.05):
        a = a[:-1]
    elif r.chance(.04):
        a.append(gen_val(r))
    return a


def gen_call(r, only=None):
    k = r.weighted([(8, 'm'), (5, 'b'), (2.5, 'u'), (1, 'f'), (2.5, 'n'), (1.2, 'set'), (.6, 'a'), (.5, 'setattr'), (.4, 'delattr'), (.4, 'getattr'), (.4, 'kw')])
    if k in ('m', 'kw'):
        c = only or r.weighted([(4, 'mns'), (1, 'ins'), (3, 'mbs'), (.4, 'ibs'), (.3, 'cbs'), (6, 'ng'), (9, 'hv'), (5, 'cli'), (1, 'hz'), (.1, 'rs')])
        n = r.choice(sorted(M[c]))
        return [k, c, n, r.randrange(64), gen_args(r, M[c][n])]
    if k == 'b':
        op = r.choice(BIN)
        a = ['c', r.choice(NATIVE), r.randrange(64)]
        return [k, op, a, gen_arg(r, 'int') if op in INT_OPS and r.chance(.6) else ['c', r.choice(NATIVE), r.randrange(64)] if r.chance(.5) else gen_arg(r, r.pick('iter', 'edges', 'bits', 'any', 'any'))]
    if k == 'u':
        return [k, r.choice(UN), r.pick(['c', r.choice(NATIVE), r.randrange(64)], ['p', r.randrange(64)])]
    if k == 'f':
        n = r.choice(sorted(FUNCS))
        return [k, n, gen_args(r, FUNCS[n])]
    if k == 'n':
        c = r.choice(sorted(NEWS))
        return [k, c, r.pick(0, 0, 0, 1, 2), gen_args(r, NEWS[c][1])]
    if k == 'set':
        return [k, ['c', r.pick('ng', 'ng', 'ng', 'mbs'), r.randrange(64)], gen_arg(r, r.pick('any', 'int')), gen_arg(r, r.pick('any', 'iter'))]
    if k == 'a':
        return [k, ['c', r.choice(NATIVE), r.randrange(64)], r.randrange(200), [gen_val(r) for _ in range(r.randint(0, 3))]]
    return [k, ['c', r.choice(NATIVE), r.randrange(64)], r.randrange(16), gen_val(r)]


def gen_init(r):
    return [r.weighted([(3, 'mns'), (3, 'ins'), (2, 'mbs'), (1, 'ibs'), (1, 'cbs'), (4, 'ng'), (2, 'hv'), (4, 'cli'), (.5, 'rel'), (.7, 'hz'), (.2, 'rs')]) for _ in range(r.randint(1, 8))]


def gen_pool(r):
    p = []
    for k in gen_init(r):
        p.append([k, r.randrange(1 << 20), r.chance(.15), r.list(lambda: r.randrange(16), 0, 6)])
    return p


# ---------------------------------------------------------------- building values

CMPS = ['<', '<=', '==', '!=', '>', '>=', '=', '\ud800', '']
ATTRS = ['_hiding_tag_', 'is_immutable', 'root', 'heap', 'limitframe', 'is_hiding_calling_interpreter', 'is_mapping', 'is_sorted', 'kind', 'relator', 'self', '__dict__', '__class__', 'static_types', '_splitting_size', '\ud800']
DEPTH = [0]


class Case:
    def __init__(self, d):
        self.marks = [Mk(i) for i in range(8)]
        for i, m in enumerate(self.marks):
            m.a = None if i % 2 else self.marks[i - 1] if i else None
        del m
        self.pool = []
        self.last = None
        self.depth = 0
        for p in d:
            try:
                self.pool.append(self.make(*p))
            except Violation:
                raise
            except Exception as e:
                raise HarnessError('cannot make %r: %r' % (p, e))

    def make(self, k, n, subc, l):
        ms = [self.marks[i % 8] for i in l]
        T = (lambda t: SUBS.get(t, t)) if subc else (lambda t: t)
        bits = [(n * (i + 1)) % 300 - 100 for i in l]
        if k == 'mns':
            s = T(S.MutNodeSet)(ms)
            if n % 3 == 0:
                s._hiding_tag_ = self.tag(n)
            return s
        if k == 'ins':
            return T(S.ImmNodeSet)(ms, self.tag(n)) if n % 3 == 0 else T(S.ImmNodeSet)(ms)
        if k == 'mbs':
            return T(S.MutBitSet)(bits if n % 4 else ~S.immbitset(bits))
        if k == 'ibs':
            return S.immbitset(bits)
        if k == 'cbs':
            return ~S.immbitset(bits)
        if k == 'ng':
            g = T(NG)([(ms[i], ms[(i * 3 + n) % len(ms)]) for i in range(len(ms))], bool(n & 1))
            if n & 6 == 0:
                for m in ms:
                    g.add_edge(m, (m,))
            if n & 2:
                len(g)
            return g
        if k == 'hv':
            h = T(HeapView)(RootState if n % 16 == 7 else tuple(ms) if n % 3 else [self.marks, ms], HD)
            if n % 5 == 0:
                h._hiding_tag_ = self.tag(n)
            return h
        if k == 'cli':
            hv = self.find('hv', n) or view(tuple(self.marks))
            g = self.find('ng', n) or NG()
            c = n % 11
            inner = self.find('cli', n // 11)
            if c == 0:
                return hv.cli_type()
            if c == 1:
                return hv.cli_none()
            if c == 2:
                return hv.cli_id()if False else hv.cli_idset({})
            if c == 3:
                return hv.cli_indisize({})
            if c == 4:
                return hv.cli_inrel(g, {}, {})
            if c == 5:
                return hv.cli_rcs(g, inner or hv.cli_type(), {})
            if c == 6:
                return hv.cli_dictof(g, inner or hv.cli_type(), self.marks[0], self.marks[1])
            if c == 7:
                return hv.cli_and((inner or hv.cli_type(), hv.cli_none()), {})
            if c == 8:
                return hv.cli_findex(((hv.cli_type(), Mk, '<='),), {})
            if c == 9:
                return hv.cli_prod({})
            f = lambda o: o
            return hv.cli_user_defined(hv.cli_none(), hv.cli_none().classify(1), f, f)
        if k == 'rel':
            return Relation(n % 10 + 1, self.marks[n % 8])
        if k == 'hz':
            return Horizon(S.MutNodeSet(ms))
        if k == 'rs':
            return RootState
        raise HarnessError(k)

    def tag(self, n):
        return [self.marks[0], 'tag', None][n // 5 % 3]

    def cat(self, k):
        if k == 'H':
            return [o for o in self.pool if getattr(type(o), 'hostile', 0)]
        t = CATS[k]
        return [o for o in self.pool if issubclass(type(o), t)]

    def find(self, k, n):
        l = self.cat(k)
        return l[n % len(l)] if l else None

    def val(self, a):
        k, n = a[0], a[1]
        if k == 'p':
            return self.pool[n % len(self.pool)] if self.pool else None
        if k == 'm':
            return self.marks[n % 8]
        if k == 'v':
            return self.nasty(n % NV)
        if k == 'i':
            return n
        if k == 'I':
            return HUGE[n % len(HUGE)]
        if k == 'l':
            return [self.val(x) for x in n]
        if k == 't':
            return tuple([self.val(x) for x in n])
        if k == 'd':
            out = {}
            for x in n:
                try:
                    out[self.val(x)] = 1
                except BaseException:
                    pass
            return out
        if k == 'g':
            return self.gen_([self.val(x) for x in n], a[2], a[3], a[4])
        if k == 'h':
            return self.hostile(n)
        if k == 'it':
            try:
                return iter(self.pool[n % len(self.pool)])
            except BaseException:
                return None
        if k == 'self':
            return self.pool
        if k == 'cmp':
            return CMPS[n % len(CMPS)]
        if k == 'addr':
            return id(self.marks[n % 8]) if n < 32 else id(self.marks[n % 8]) + n
        if k == 'defs':
            return [HD, HD, HD, (), HD + HD, (1,), HD[:1], (None,) + HD][n % 8]
        if k == 'hzset':
            return S.MutNodeSet(self.marks[:n % 4])
        if k == 'c':
            v = self.find(n, a[2])
            if v is None and n in ('tuple', 'dict', 'list', 'type', 'mk'):
                v = {'tuple': lambda: (self.marks[1], self.marks[2]), 'dict': dict, 'list': lambda: [self.marks[1]], 'type': lambda: [Mk, int, TYPES[a[2] % len(TYPES)], type, types.ModuleType][a[2] % 5], 'mk': lambda: self.marks[0]}[n]()
            elif v is None and n in NATIVE + ('ns', 'bs'):
                n = {'ns': 'mns', 'bs': 'mbs'}.get(n, n)
                v = self.make(n, a[2] * 37 + 1, False, [1, 2])
            return v
        raise HarnessError(repr(a))

    def nasty(self, n):
        ms = self.marks
        return [lambda: None, lambda: True, lambda: 0, lambda: -1, lambda: 1.5, lambda: float('nan'), lambda: 'abc', lambda: '\ud800', lambda: b'abc', lambda: (), lambda: [], lambda: {}, lambda: set(), lambda: frozenset([1, 2]),
                lambda: (1,), lambda: (1, 2), lambda: (1, 2, 3), lambda: [(1, 2)], lambda: [(1,)], lambda: {1: 2}, lambda: iter([1, 2]), lambda: (i for i in ms), lambda: range(5), lambda: object(), lambda: object, lambda: type,
                lambda: len, lambda: (lambda *a: 1), lambda: (lambda: 1 / 0), lambda: NotImplemented, lambda: Ellipsis, lambda: sys, lambda: types.SimpleNamespace(a=1), lambda: slice(1, 2), lambda: slice(None, None, -1), lambda: slice(ms[0], None),
                lambda: slice(-(1 << 70), 1 << 70, 1 << 70), lambda: weakref.ref(ms[0]), lambda: weakref.proxy(ms[0]), lambda: memoryview(b'ab'), lambda: bytearray(3), lambda: 1j, lambda: HUGE[0], lambda: S._NyHeapDefs_, lambda: S.NyBitSet_Exports,
                lambda: ms][n]()

    def gen_(self, l, act, k, j):
        def g():
            for i, x in enumerate(l):
                if i == k:
                    yield self.act(act, j, x, None)
                yield x
        return g()

    def hostile(self, spec):
        acts = {}
        for d, a, k, j in spec:
            acts.setdefault(d, []).append((a, k, j))
        counts = {}
        case = self
        marks = self.marks

        def mk(d):
            def m(self, *args):
                c = counts.get(d, 0)
                counts[d] = c + 1
                dflt = default(d, self, args, c)
                for a, k, j in acts[d]:
                    if (k == c or a == 'ok') and not (d == '__hash__' and a in ('pair', 'self', 'pool', 'float', 'huge', 'str')):  # (the interpreter leaks it)
                        return case.act(a, j, dflt, self)
                return dflt
            m.__name__ = d
            return m

        def default(d, self, args, c):
            if d == '__iter__':
                return iter(marks[:4])
            if d == '__next__':
                if c > 4:
                    raise StopIteration
                return marks[c % 8]
            if d in ('__len__', '__length_hint__'):
                return 3
            if d == '__getitem__':
                if c > 4:
                    raise IndexError
                return marks[c % 8]
            if d in ('__hash__', '__index__', '__int__', '__sizeof__'):
                return 5
            if d in ('__repr__', '__str__'):
                return 'H'
            if d == '__call__':
                return marks[c % 3]
            if d in ('__getattr__', '__getattribute__'):
                if d == '__getattribute__':
                    return object.__getattribute__(self, *args)
                raise AttributeError
            if d in ('__and__', '__rand__', '__or__', '__ror__', '__sub__', '__rsub__', '__xor__', '__rlshift__'):
                return NotImplemented
            if d == '__reduce__':
                return (Mk, (1,))
            if d == '__del__':
                return None
            if d == '__class__':
                return Mk
            return True
        ns = {d: mk(d) for d in acts}
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = object.__hash__
        if '__next__' in ns and '__iter__' not in ns:
            ns['__iter__'] = lambda self: self
        if '__class__' in ns:
            ns['__class__'] = property(ns['__class__'])
        ns['hostile'] = 1
        return type('H', (), ns)()

    def act(self, a, j, dflt, me):
        pool = self.pool
        if a == 'raise':
            raise ValueError('hostile')
        if a == 'memerr':
            raise MemoryError
        if a == 'odd':
            raise Odd
        if a == 'stop':
            raise StopIteration
        if a == 'indexerr':
            raise IndexError
        if a == 'attrerr':
            raise AttributeError
        if a in ('none', 'notimpl', 'huge', 'neg', 'str', 'self', 'pair', 'float', 'int', 'pool'):
            return {'none': None, 'notimpl': NotImplemented, 'huge': HUGE[j % len(HUGE)], 'neg': -1, 'str': '\ud800', 'self': me, 'pair': (self.marks[0], self.marks[1]), 'float': 2.5, 'int': j,
                    'pool': pool[j % len(pool)] if pool else None}[a]
        if a == 'gc':
            gc.collect()
        elif a == 'recur':
            if self.depth < 40:
                self.depth += 1
                try:
                    self.again()
                finally:
                    self.depth -= 1
        elif a == 'redo':
            if self.depth < 1:
                self.depth += 1
                try:
                    self.again()
                finally:
                    self.depth -= 1
        elif a == 'dropall':
            del pool[:]
        elif pool:
            j %= len(pool)
            o = pool[j]
            try:
                if a == 'clear':
                    o.clear()
                elif a == 'add':
                    if issubclass(type(o), NG):
                        for m in self.marks * 5:
                            o.add_edge(m, Mk(3))
                    elif issubclass(type(o), S.MutBitSet):
                        for i in range(0, 4000, 40):
                            o.add(i)
                    else:
                        for i in range(60):
                            o.add(Mk(i))
                elif a == 'pop':
                    if issubclass(type(o), NG):
                        o.invert()
                    else:
                        o.pop()
                elif a == 'drop':
                    pool[j] = None
                elif a == 'tag' and type(o) in NATTYPES:
                    o._hiding_tag_ = [None, self.marks[1], o][j % 3]
            except (AttributeError, ValueError, TypeError, KeyError):
                pass
        return dflt

    def again(self):
        if self.last:
            f, args = self.last
            f(*args)

    # ------------------------------------------------------------ one call

    def prepare(self, s):
        """function and arguments of a step; None if not applicable"""
        k = s[0]
        val = self.val
        if k in ('m', 'kw'):
            o = val(['c', s[1], s[3]])
            f = getattr(o, s[2], None)
            args = [val(a) for a in s[4]]
            if f is None or o is None or s[1] == 'hv' and s[2] == 'update_referrers_completely' and s[3] % 8:
                return None
            if s[2] == 'heap' and type(o.root) is type(RootState) and s[3] % 16:
                return None
            if k == 'kw':
                names = ['start', 'avoid', 'src', 'tgt', 'type', 'cond_cli', 'cond_kind', 'classify', 'memoized_kind', 'G', 'U', 'S', 'AvoidEdges', 'find_one', 'hv', 'is_mapping']
                kw = {names[(s[3] + i) % len(names)]: v for i, v in enumerate(args)}
                return (lambda: f(**kw)), []
            return f, args
        if k == 'b':
            op, a, b = s[1], val(s[2]), val(s[3])
            if a is None:
                return None
            if op == 'rin':
                return operator.contains, [b, a]
            if op in ('rand', 'ror', 'rsub', 'rxor'):
                return getattr(operator, {'rand': 'and_', 'ror': 'or_', 'rsub': 'sub', 'rxor': 'xor'}[op]), [b, a]
            return getattr(operator, op), [a, b]
        if k == 'u':
            return self.unary(s[1], s[2])
        if k == 'f':
            return getattr(S, s[1]), self.bounded(s[1], [val(a) for a in s[2]])
        if k == 'n':
            t, _ = NEWS[s[1]]
            args = [val(a) for a in s[3]]
            if s[2] == 1:
                t = SUBS.get(t, t)
            elif s[2] == 2:
                return t.__new__, [t] + args
            return t, args
        if k == 'set':
            return operator.setitem, [val(s[1]), val(s[2]), val(s[3])]
        o = val(s[1])
        if o is None:
            return None
        if k == 'a':
            try:
                n = sorted(x for x in dir(o) if x not in ('__init_subclass__', '__class__'))
            except BaseException:
                return None
            n = n[s[2] % len(n)]
            if n in ('update_referrers_completely', 'heap') or n == '__lshift__':
                return None
            args = [val(a) for a in s[3]]

            def f():
                getattr(o, n)(*args)
            return f, []
        n = ATTRS[s[2]]
        if k == 'setattr':
            v = val(s[3])
            if n == '__class__' and issubclass(type(v), type) and v not in TYPES:
                return None
            return setattr, [o, n, v]
        if k == 'delattr':
            return delattr, [o, n]
        return getattr, [o, n]

    def bounded(self, n, args):
        if n == 'immbitrange':
            for i, a in enumerate(args):
                if type(a) is int and abs(a) > 1 << 20:
                    args[i] = a
        return args

    def unary(self, n, a):
        o = self.val(a)
        if o is None and n not in ('gc',):
            return None
        if n == 'iter':
            return iter, [o]
        if n == 'list':
            def f(o):
                out = []
                for i, x in enumerate(o):
                    out.append(x)
                    if i > 1000:
                        break
                return out
            return f, [o]
        if n == 'next':
            return next, [o]
        if n == 'copy':
            return copy.copy, [o]
        if n == 'deep':
            return (lambda: [copy.copy(copy.copy(o))]), []
        if n == 'pickle':
            if issubclass(type(o), S.BitSet):
                return (lambda: pickle.loads(pickle.dumps(o))), []
            return (lambda: o.__reduce_ex__(2)), []
        if n == 'gc':
            return gc.collect, []
        if n == 'del':
            if a[0] == 'p' and self.pool:
                def f(j):
                    self.pool[j % len(self.pool)] = None
                return f, [a[1]]
            return None
        if n == 'index':
            return operator.index, [o]
        if n == 'sizeof':
            return sys.getsizeof, [o]
        if n == 'refs':
            return gc.get_referents, [o]
        if n == 'attrs':
            def f():
                for x in dir(o):
                    try:
                        getattr(o, x)
                    except Exception:
                        pass
            return f, []
        import builtins
        return getattr(builtins, n, None) or getattr(operator, n), [o]

    def keep(self, r):
        if r is None or type(r) in (bool, int, str, float):
            return
        if len(self.pool) < 30:
            self.pool.append(r)


PROBE = operator.not_


def guarded(st, what, f, args):
    """call f; ordinary exceptions are fine"""
    ok = True
    r = None
    try:
        r = f(*args)
    except SystemError as e:
        raise Violation('%s: SystemError %s' % (what, e))
    except (Exception, Odd) as e:
        ok = False
        e.__traceback__ = None
        del e
    try:
        PROBE(1)
    except BaseException as e:
        raise Violation('%s: returned with an exception set: %r' % (what, e))
    return ok, r


def describe(s):
    return ' '.join(str(x) for x in s)[:160]


def plain(o):
    return type(o) in (S.MutNodeSet, S.ImmNodeSet, S.MutBitSet, S.ImmBitSet, S.CplBitSet, NG)


def consistent(o, what):
    t = type(o)
    if issubclass(t, S.NodeSet) and t is not S.NodeSet and t is not SUBS.get(S.NodeSet):
        l = list(o)
        eq(len(l), len(o), '%s: length of %s and number of items iterated', what, t.__name__)
        eq(len({id(x) for x in l}), len(l), '%s: distinct items of %s', what, t.__name__)
        check(all(x in o for x in l), '%s: an item of %s is not in it', what, t.__name__)
        check(not (o - o), '%s: %s minus itself', what, t.__name__)
        m = S.MutNodeSet(o)
        check(len(m) == len(l) and all(x in m for x in l), '%s: copy of %s', what, t.__name__)
    elif issubclass(t, S.BitSet) and t is not S.BitSet and t is not SUBS.get(S.BitSet):
        if issubclass(t, (S.ImmBitSet, S.MutBitSet)):
            if o:
                try:
                    n = len(o)
                except (TypeError, OverflowError):
                    n = None
                if n is not None and n < 5000:
                    l = list(o)
                    eq(len(l), n, '%s: length of %s and number of bits iterated', what, t.__name__)
                    eq(l, sorted(set(l)), '%s: bits of %s', what, t.__name__)
                    check(all(x in o for x in l), '%s: a bit of %s is not in it', what, t.__name__)
        check(not (o ^ o), '%s: %s xor itself', what, t.__name__)
        check(o == S.immbitset(o) if not issubclass(t, S.CplBitSet) else o == ~~o, '%s: copy of %s', what, t.__name__)
    elif issubclass(t, NG):
        l = list(o)
        fl = o.as_flat_list()
        eq(len(fl), 2 * len(l), '%s: edges of the graph', what)
        dom = o.get_domain()
        check({id(x) for x in dom} == {id(x) for x in fl[::2]}, '%s: domain of the graph', what)
        c = o.copy()
        cl = c.as_flat_list()
        check({(id(x), id(y)) for x, y in zip(cl[::2], cl[1::2])} == {(id(x), id(y)) for x, y in zip(fl[::2], fl[1::2])}, '%s: copy of the graph', what)
        x = y = cl = None
        o.inverted()


def drop(C, what, base=[]):
    """drop everything but the plain objects; they have the references that those of an untouched case have"""
    if not base:
        base.append(None)
        base[0] = drop(Case([]), what)
    base = base[0]
    marks = C.marks
    C.pool.clear()
    C.last = C.marks = None
    for m in marks:
        m.a = None
    m = None
    del C
    gc.collect()
    gc.collect()
    for i in range(8):
        n = sys.getrefcount(marks[i])
        if base is None:
            return n
        if n != base:
            raise Violation('%s: object %d has %d references after everything is dropped, expected %d' % (what, i, n, base))


def run_call(d, st):
    C = Case(d['p'])
    oks = fails = 0
    for i, s in enumerate(d['s']):
        what = 'step %d %s' % (i, describe(s))
        try:
            p = C.prepare(s)
        except (ValueError, MemoryError, Odd, StopIteration, IndexError, AttributeError, TypeError, RuntimeError, RecursionError, OverflowError, KeyError) as e:
            e.__traceback__ = None
            st.label('notprepared')
            continue
        if p is None:
            continue
        C.last = p
        ok, r = guarded(st, what, *p)
        st.label(s[0] + ('+' if ok else '-'))
        oks += ok
        fails += not ok
        if ok:
            C.keep(r)
        p = r = None
    C.last = None
    for o in list(C.pool):
        if o is not None and type(o) in NATTYPES:
            try:
                consistent(o, 'afterwards')
            except Violation:
                raise
            except SystemError as e:
                raise Violation('afterwards: %r of %s' % (e, type(o).__name__))
    o = None
    st.nontrivial(oks and fails)
    p = r = s = None
    return drop(C, 'afterwards')


NATTYPES = set(TYPES) | set(SUBS.values())


def gen_c(r):
    return {'p': gen_pool(r), 's': [gen_call(r) for _ in range(r.pick(r.randint(1, 5), r.randint(3, 25)))]}


def hostile(c):
    return c[:1] in (['h'], ['g']) or any(hostile(x) for x in c if type(x) is list)


def gen_fault(r):
    while 1:
        c = gen_call(r)
        if hostile(c) or c[:2] == ['b', 'rin']:  # (Python code would see the failures too)
            continue
        if c[0] in ('m', 'b', 'f', 'n', 'set') or c[0] == 'u' and c[1] in ('iter', 'next', 'int', 'invert', 'repr'):
            return {'p': gen_pool(r), 's': [gen_call(r) for _ in range(r.pick(0, 0, 2))], 'c': c, 'k': r.pick(0, 0, r.randrange(10), r.randrange(60)), 'n': r.randint(1, 12)}


def run_fault(d, st):
    C = Case(d['p'])
    for s in d['s']:
        try:
            p = C.prepare(s)
        except ORD:
            continue
        if p:
            ok, r = guarded(st, 'before', *p)
            if ok:
                C.keep(r)
        p = r = None
    fails = oks = 0
    C.last = None
    for k in range(d['k'], d['k'] + d['n']):
        try:
            p = C.prepare(d['c'])
        except ORD:
            break
        if p is None:
            break
        f, a = p
        what = 'allocation %d fails in %s' % (k, describe(d['c']))
        r = None
        try:
            _testcapi.set_nomemory(k, k + 1)
            try:
                r = f(*a)
            finally:
                _testcapi.remove_mem_hooks()
            oks += 1
        except SystemError as e:
            raise Violation('%s: SystemError %s' % (what, e))
        except (Exception, Odd) as e:
            fails += type(e) is MemoryError
            e.__traceback__ = None
            del e
        try:
            PROBE(1)
        except BaseException as e:
            raise Violation('%s: returned with an exception set: %r' % (what, e))
        p = f = a = r = None
    for o in list(C.pool):
        if o is not None and type(o) in NATTYPES:
            consistent(o, 'after allocation failures')
    o = None
    st.nontrivial(fails)
    drop(C, 'after allocation failures')


# ---------------------------------------------------------------- hostile objects in the heap

HENV = {'__builtins__': {'__build_class__': ENV['__builtins__'].get('__build_class__') or getattr(__import__('builtins'), '__build_class__')}, '__name__': 'sterile'}
exec("""
class Act:
    __slots__ = ('n', 'do', 'k', 'j', 'env', 'dflt')

    def __init__(self, do, k, j, env, dflt):
        self.n = 0
        self.do = do
        self.k = k
        self.j = j
        self.env = env
        self.dflt = dflt

    def __call__(self, me, *args):
        n = self.n
        self.n = n + 1
        if self.k != -1 and n < self.k:
            return self.dflt(me, *args)
        v = self.env(self.do, self.j, me)
        if v is self.env:
            return self.dflt(me, *args)
        return v


class Env:
    __slots__ = ('f',)

    def __call__(self, do, j, me):
        if self.f is None:
            return self
        return self.f(self, do, j, me)


class Meth:
    __slots__ = ('act',)

    def __init__(self, act):
        self.act = act

    def __get__(self, o, t):
        return Bound(self.act, o)


class Bound:
    __slots__ = ('act', 'o')

    def __init__(self, act, o):
        self.act = act
        self.o = o

    def __call__(self, *args):
        return self.act(self.o, *args)


class Prop:
    __slots__ = ('act',)

    def __init__(self, act):
        self.act = act

    def __get__(self, o, t):
        return self.act(o)


class Key:
    __slots__ = ('h', 'act')

    def __init__(self, h, act):
        self.h = h
        self.act = act

    def __hash__(self):
        self.act(self, self)
        return self.h

    def __eq__(self, other):
        return self.act(self, other)
""", HENV)
HENV['__builtins__'].clear()
Act, HEnv, Meth, Prop, Key = [HENV[n] for n in ('Act', 'Env', 'Meth', 'Prop', 'Key')]

H_OBJ = ['__sizeof__', '__hash__', '__eq__', '__repr__', '__str__', '__len__', '__bool__', '__getattribute__', '__getattr__', '__iter__', '__call__', '__format__', '__dir__']
H_PROP = ['__dict__', '__class__', '__name__', '__module__', '_hiding_tag_', '__wrapped__', '__self__', '__file__', '__doc__', 'f_code', 'co_name']
H_META = ['__hash__', '__eq__', '__repr__', '__str__', '__len__', '__bool__', '__getattribute__', '__instancecheck__', '__subclasscheck__', '__call__', '__iter__', '__lt__', '__le__', '__dir__']
HH_ACTS = ['raise', 'raise', 'memerr', 'odd', 'none', 'notimpl', 'huge', 'neg', 'zero', 'str', 'emptystr', 'self', 'gc', 'drop', 'cleardict', 'adddict', 'tuple', 'bytes', 'notadict', 'true', 'rmclass']


def gen_hh(r):
    return [r.choice(HH_ACTS), r.pick(-1, -1, 0, 1, 2), r.randrange(8)]


def gen_hobj(r):
    k = r.weighted([(8, 'inst'), (2, 'module'), (1.5, 'dict'), (1, 'func'), (1, 'type'), (1, 'mark'), (1, 'native'), (1, 'frame'), (.6, 'exc'), (.6, 'sub')])
    return {'k': k, 'o': [[r.choice(H_OBJ)] + gen_hh(r) for _ in range(r.pick(0, 1, 1, 2))], 'p': [[r.choice(H_PROP)] + gen_hh(r) for _ in range(r.pick(0, 0, 1))],
            'm': [[r.choice(H_META)] + gen_hh(r) for _ in range(r.pick(0, 0, 1, 2))], 'd': [[r.randrange(8)] + gen_hh(r) for _ in range(r.pick(0, 0, 1, 2))], 'v': r.randrange(64), 'n': r.pick('A', 'A', '', '\ud800', 'a.b', 'x' * 300, 'A\n<', None)}


def gen_heap(r):
    return {'o': r.list(lambda: gen_hobj(r), 1, 5), 's': [[r.choice(HOPS), r.randrange(64), r.randrange(64), r.randrange(64)] for _ in range(r.randint(1, 8))], 'x': r.chance(.45),
            'e': [[r.choice(EXPRS), r.randrange(64), r.randrange(64)] for _ in range(r.randint(1, 4))]}


HOPS = ['heap', 'sum', 'classify', 'partition', 'epartition', 'select', 'refs', 'numedges', 'relate', 'relimg', 'reach', 'reachx', 'shp', 'dictowners', 'regtype', 'regtag', 'deltype', 'refsc', 'memo']
EXPRS = ['bytype', 'byclodo', 'byrcs', 'bysize', 'byid', 'bymodule', 'byunity', 'byvia', 'byprod', 'referrers', 'referents', 'domisize', 'dominos', 'shpaths', 'rp', 'theone', 'kind', 'parts', 'stat', 'nodes', 'dictof', 'minus',
         'imdom', 'size', 'more', 'sp', 'diff', 'all', 'owners', 'item', 'partition']


class HeapCase:
    def __init__(self, d):
        self.env = HEnv()
        self.env.f = None
        self.pool = []
        self.marks = [Mk(i) for i in range(4)]
        for o in d['o']:
            try:
                self.pool.append(self.obj(o))
            except (TypeError, ValueError) as e:
                e.__traceback__ = None
                self.pool.append(HPlain())
        self.env.f = self.act

    def act(self, env, a, j, me):
        pool = self.pool
        if a == 'raise':
            raise [ValueError, TypeError, AttributeError, KeyError, StopIteration, IndexError, RuntimeError, OverflowError][j]('hostile')
        if a == 'memerr':
            raise MemoryError
        if a == 'odd':
            raise Odd
        v = {'none': None, 'notimpl': NotImplemented, 'huge': HUGE[j], 'neg': -1, 'zero': 0, 'str': '\ud800%s\n', 'emptystr': '', 'self': me, 'tuple': (1, 2), 'bytes': b'x', 'notadict': [1], 'true': True}.get(a, env)
        if a == 'gc':
            gc.collect()
        elif a == 'drop' and pool:
            pool[j % len(pool)] = None
        elif a in ('cleardict', 'adddict') and pool:
            o = pool[j % len(pool)]
            dd = o if type(o) is dict else getattr(o, 'dd', None) if type(o) is Mk else None
            if dd is None:
                try:
                    dd = object.__getattribute__(o, '__dict__')
                except Exception:
                    return v
            if type(dd) is dict:
                if a == 'cleardict':
                    dd.clear()
                else:
                    for i in range(40):
                        dd['k%d' % i] = i
        elif a == 'rmclass' and pool:
            o = pool[j % len(pool)]
            try:
                object.__setattr__(o, '__class__', HPlain)
            except Exception:
                pass
        return v

    def meth(self, n, a, k, j):
        dflt = DFLT.get(n) or D_none
        if n == '__hash__' and a in ('self', 'huge', 'str', 'emptystr', 'tuple', 'bytes', 'notadict'):
            a = 'raise'
        return Act(a, k, j, self.env, dflt)

    def obj(self, d):
        k = d['k']
        ms = self.marks
        if k == 'mark':
            return ms[d['v'] % 4]
        if k == 'native':
            n = d['v'] % 4
            return [S.MutNodeSet(ms), S.ImmNodeSet(ms), NG([(ms[0], ms[1])]), S.MutBitSet([5])][n]
        keys = []
        for h, a, kk, j in d['d']:
            key = Key([hash('_hiding_tag_'), hash('__name__'), hash('__dict__'), hash('__class__'), hash('a'), 0, -1, 7][h], self.meth('key', a, kk, j))
            keys.append((key, ms[j % 4] if j < 6 else key))
        if k == 'dict':
            dd = {'a': ms[0]}
            for a, b in keys:
                dd[a] = b
            return dd
        if k == 'func':
            f = types.FunctionType((lambda x=1: x).__code__, {'__builtins__': {}, 'q': ms[1]}, d['n'] or 'f', (ms[0],))
            for a, b in keys:
                f.__dict__[a] = b
            return f
        if k == 'module':
            m = types.ModuleType(d['n'] or 'm')
            if d['n'] is None:
                del m.__name__
            elif d['v'] % 3 == 0:
                m.__name__ = [None, 3, ms[0], ('x',)][d['v'] % 4]
            for a, b in keys:
                m.__dict__[a] = b
            if d['v'] % 5 == 0:
                m.__dict__.clear()
            m.__dict__['mk'] = ms[2]
            return m
        if k == 'frame':
            f = types.FunctionType(compile('def g(a, b):\n    c = a\n    yield c\n', 'sterile', 'exec').co_consts[0], {'__builtins__': {}}, 'g')
            g = f(ms[0], ms[1])
            if d['v'] % 2:
                next(g)
            return [g, g.gi_frame][d['v'] // 2 % 2]
        bases = (object,)
        if k == 'exc':
            bases = (Exception,)
        elif k == 'sub':
            bases = ([dict, list, tuple, int, str, set, types.ModuleType, S.MutNodeSet, NG, S.MutBitSet, float, bytes, property, classmethod, weakref.ref, S.ImmNodeSet, types.SimpleNamespace, type][d['v'] % 18],)
        elif k == 'type':
            bases = (type,)
        ns = {'__module__': 'sterile'}
        for n, a, kk, j in d['o']:
            ns[n] = Meth(self.meth(n, a, kk, j))
        for n, a, kk, j in d['p']:
            ns[n] = Prop(self.meth('prop', a, kk, j))
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = None
        if d['v'] % 7 == 0 and '__module__' not in [x[0] for x in d['p']]:
            ns['__module__'] = [None, 3, ms[0], '', '\ud800'][d['v'] % 5]
        if d['v'] % 11 == 0 and bases == (object,):
            ns['__slots__'] = ('_hiding_tag_', 'a')
        meta = type
        if d['m'] and bases != (type,):
            mns = {'__module__': 'sterile'}
            for n, a, kk, j in d['m']:
                mns[n] = Meth(self.meth('m' + n, a, kk, j))
            if '__eq__' in mns and '__hash__' not in mns:
                mns['__hash__'] = type.__hash__
            meta = type('M', (type,), mns)
        t = type.__new__(meta, d['n'] if d['n'] is not None and '\0' not in d['n'] and '\ud800' not in d['n'] else 'C', bases, ns)
        if k == 'type':
            return type.__new__(t, 'D', (object,), {'__module__': 'sterile'})
        b = bases[0]
        try:
            o = {types.ModuleType: lambda: b.__new__(t), type: lambda: b.__new__(t, 'E', (), {}), weakref.ref: lambda: b.__new__(t, ms[0]), S.MutNodeSet: lambda: b.__new__(t, ms), S.ImmNodeSet: lambda: b.__new__(t, ms),
                 dict: lambda: b.__new__(t)}.get(b, lambda: b.__new__(t))()
            if b is types.ModuleType and d['v'] % 2:
                types.ModuleType.__init__(o, 'mod')
            if b is dict:
                dict.__setitem__(o, 'a', ms[0])
            dd = None
            try:
                dd = object.__getattribute__(o, '__dict__') if '__dict__' not in ns else None
            except Exception:
                pass
            if type(dd) is dict:
                dd['a'] = ms[1]
                for a, b in keys:
                    dd[a] = b
        except (TypeError, AttributeError) as e:
            e.__traceback__ = None
            return HPlain()
        return o


class HPlain:
    __slots__ = ('__dict__', '__weakref__')


def D_none(me, *a):
    return None


D_ = {n: 1 for n in ()}
DFLT = {'__sizeof__': lambda me: 64, '__hash__': lambda me: 5, '__eq__': lambda me, o: me is o, '__repr__': lambda me: 'H', '__str__': lambda me: 'H', '__len__': lambda me: 1, '__bool__': lambda me: True, '__format__': lambda me, f: 'H',
        '__getattribute__': object.__getattribute__, '__iter__': lambda me: iter(()), '__dir__': lambda me: [], 'key': lambda me, o: me is o,
        'm__hash__': type.__hash__, 'm__eq__': lambda me, o: me is o, 'm__repr__': type.__repr__, 'm__str__': type.__repr__, 'm__len__': lambda me: 1, 'm__bool__': lambda me: True, 'm__getattribute__': type.__getattribute__,
        'm__instancecheck__': type.__instancecheck__, 'm__subclasscheck__': type.__subclasscheck__, 'm__call__': type.__call__, 'm__iter__': lambda me: iter(()), 'm__lt__': lambda me, o: False, 'm__le__': lambda me, o: False, 'm__dir__': type.__dir__}


def hop(C, hv, op, i, j, k, st):
    pool = C.pool
    o = pool[i % len(pool)] if i % 3 else C.marks[i % 4]
    q = pool[j % len(pool)] if j % 3 else C.marks[j % 4]

    def rg():
        g = NG()
        hv.update_referrers(g, S.MutNodeSet([x for x in pool] + C.marks))
        return g
    clis = [hv.cli_type, hv.cli_none, lambda: hv.cli_idset({}), lambda: hv.cli_indisize({}), lambda: hv.cli_rcs(rg(), hv.cli_type(), {}), lambda: hv.cli_inrel(rg(), {}, {}), lambda: hv.cli_dictof(NG(), hv.cli_type(), C.marks[0], C.marks[1]),
            lambda: hv.cli_and((hv.cli_type(), hv.cli_indisize({})), {}), lambda: hv.cli_prod({}), lambda: hv.cli_findex(((hv.cli_type(), type(o), '<='), (hv.cli_indisize({}), 64, '==')), {})]
    cli = clis[k % len(clis)]
    if op == 'heap':
        return hv.heap, ()
    if op == 'sum':
        return hv.indisize_sum, (pool,)
    if op == 'classify':
        return (lambda: cli().classify(o)), ()
    if op in ('partition', 'epartition'):
        return (lambda: getattr(cli(), op)(pool)), ()
    if op == 'memo':
        f = cli()
        return (lambda: getattr(f, 'memoized_kind', f.classify)(q)), ()
    if op == 'select':
        return (lambda: cli().select(pool, cli().classify(q), CMPS[j % 6])), ()
    if op == 'refs':
        return hv.update_referrers, (NG(), S.MutNodeSet([o, q]))
    if op == 'refsc':
        return hv.update_referrers_completely, (NG(),)
    if op in ('numedges', 'relate'):
        return getattr(hv, op), (o, q)
    if op == 'relimg':
        return hv.relimg, ([o, q],)
    if op in ('reach', 'reachx'):
        return getattr(hv, {'reach': 'reachable', 'reachx': 'reachable_x'}[op]), (S.ImmNodeSet([o]), S.ImmNodeSet([q]))
    if op == 'shp':
        return hv.shpathstep, (NG(), S.ImmNodeSet([o, q]), S.MutNodeSet([pool]))
    if op == 'dictowners':
        return hv.update_dictowners, (NG(),)
    if op == 'regtype':
        return hv.register_hidden_exact_type, (type(o),)
    if op == 'regtag':
        return hv.register__hiding_tag__type, (type(o),)
    return hv.delete_extra_type, (weakref.ref(type(o)),)


def expr(h, C, op, i, j):
    pool = C.pool
    x = h.iso(*(pool[:i % (len(pool) + 1)] or pool[:1]))
    o = pool[j % len(pool)]
    if op in ('bytype', 'byclodo', 'byrcs', 'bysize', 'byid', 'bymodule', 'byunity', 'byvia', 'byprod', 'referrers', 'referents', 'dominos', 'shpaths', 'kind', 'parts', 'imdom', 'sp'):
        return lambda: str(getattr(x, op))
    if op in ('domisize', 'size'):
        return lambda: getattr(x, op)
    if op == 'rp':
        return lambda: str(x.rp)
    if op == 'theone':
        return lambda: h.iso(o).theone
    if op == 'stat':
        return lambda: str(x.stat)
    if op == 'nodes':
        return lambda: repr(x.nodes)
    if op == 'dictof':
        return lambda: str(x.dictof)
    if op == 'minus':
        return lambda: str(x - h.iso(o))
    if op == 'more':
        return lambda: str(x.byid.more)
    if op == 'diff':
        return lambda: str(x.stat - h.iso(o).stat)
    if op == 'all':
        return lambda: str(x.byclodo.all)
    if op == 'owners':
        return lambda: str(x.owners)
    if op == 'item':
        return lambda: [str(x.byid[0]), str(x.bytype[0].kind), str(x.byclodo[0].byrcs)]
    return lambda: [p.size for p in x.partition.get_sets()]


REFSET = [None, {}]


def run_heap(d, st):
    C = HeapCase(d)
    oks = fails = 0
    if not C.pool:
        return
    hv = view(C.pool)
    for op, i, j, k in d['s']:
        if not C.pool or any(o is None for o in C.pool):
            break
        try:
            f, a = hop(C, hv, op, i, j, k, st)
        except (Exception, Odd) as e:
            e.__traceback__ = None
            continue
        ok, r = guarded(st, '%s %d %d %d' % (op, i, j, k), f, a)
        st.label(op + ('+' if ok else '-'))
        oks += ok
        fails += not ok
        f = a = r = None
    if d['x'] and not any(o is None for o in C.pool):
        h = hp()
        want = REFSET[0]
        if want is None:
            want = REFSET[0] = sane(h)
        with rooted(h, C.pool):
            for op, i, j in d['e']:
                if any(o is None for o in C.pool):
                    break
                try:
                    f = expr(h, C, op, i, j)
                except SystemError as e:
                    raise Violation('%s: SystemError %s' % (op, e))
                except (Exception, Odd) as e:
                    e.__traceback__ = None
                    continue
                ok, r = guarded(st, '%s %d %d' % (op, i, j), f, ())
                st.label('s.' + op + ('+' if ok else '-'))
                oks += ok
                fails += not ok
                f = r = None
        C.env.f = None
        C.pool.clear()
        gc.collect()
        eq(sane(h), want, 'the session afterwards: descriptions of plain objects')
    C.env.f = None
    o = hv = f = a = r = None
    for o in C.pool:
        if o is not None and type(o) in NATTYPES:
            consistent(o, 'afterwards')
    o = None
    st.nontrivial(oks and fails)


def sane(h):
    x = h.iso(1, 'abc', 2.5, Mk, (1, 2))
    return [str(x.bytype), str(x.byclodo), str(x.bysize), str(x.kind), x.count, x.size, len(list(x.partition.get_sets()))]



ORD = (ValueError, MemoryError, Odd, StopIteration, IndexError, AttributeError, TypeError, RuntimeError, RecursionError, OverflowError, KeyError)
FACETS = {
    'call': (6, gen_c, run_call),
    'fault': (3, gen_fault, run_fault),
    'heap': (.8, gen_heap, run_heap),
}


def setup():
    gc.collect()
    gc.freeze()
    gc.disable()
    sys.unraisablehook = lambda u: None
