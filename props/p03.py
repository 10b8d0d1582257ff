"""P03: one value, many constructions: equality, hash, pickle, rebuild."""
import copy
import pickle
from pbt.core import Violation, check, eq, raises
from props.bitmodel import *

SPEC = dict(
    id='P03', quick=120000, thorough=3000000,
    rule='A case is a generated finite or co-finite integer set and 2-5 generated ways of building it (elements in any order with duplicates, ranges, '
         'unions, differences of larger sets, double complement, shifts back and forth, mutable detours with fields cleared again, slices, int, '
         'pickles of every protocol, copy); every pair must be equal with equal hash, and a neighbour value unequal. Non-trivial: the set is not empty.',
    assumptions=['immutable bitsets only compare equal to bitsets (other operands raise TypeError)'])

WAYS = ['elems', 'shuffled', 'ranges', 'union', 'diff', 'dblcpl', 'shift', 'mut', 'mutclear', 'slice', 'int', 'pickle', 'copy', 'deepcopy',
        'sub', 'ior', 'single', 'xor', 'and', 'seg', 'fromimm', 'subpickle', 'mutpickle', 'popped', 'bs']


def gen(r):
    v = gen_val(r, 16, 0.3)
    if r.chance(0.08):
        v = [v[0], [0x1d567f9f & 63] if r.chance(0.5) else _hash_zero_bits()]
    return {'v': v, 'ways': r.list(lambda: [r.choice(WAYS), r.randint(0, 5), r.randint(-300, 300)], 2, 5),
            'nb': r.randint(0, 3), 'extra': gen_bits(r, 6)}


def _hash_zero_bits():
    # elements of the word 0x1d567f9f: the hash of this bitset is 0
    return [i for i in range(32) if 0x1d567f9f >> i & 1]


def build(v, way, p, q, extra):
    cpl, bits = v
    m = model(v)
    s = m[1]
    fin = None
    ex = [x for x in extra if x not in s]
    if way == 'elems':
        fin = S.immbitset(bits)
    elif way == 'shuffled':
        l = sorted(s, key=lambda x: (x * 2654435761 + q) % 1000003)
        fin = S.immbitset(iter(l + l[:p]))
    elif way == 'ranges':
        return make(v, 'range')[0]
    elif way == 'union':
        l = sorted(s)
        fin = S.immbitset(l[::2]) | S.immbitset(l[1::2]) | l[:p]
    elif way == 'diff':
        fin = S.immbitset(list(s) + ex) - S.immbitset(ex)
    elif way == 'dblcpl':
        fin = ~~S.immbitset(bits)
    elif way == 'shift':
        if all(MIN + 400 < x < MAX - 400 for x in s):
            fin = (S.immbitset(bits) << q) << -q
        else:
            fin = S.immbitset(bits)
    elif way == 'mut':
        x = S.mutbitset(bits)
        if cpl:
            x ^= ~S.immbitset()
        return S.immbitset(x)
    elif way == 'mutclear':
        x = S.mutbitset(ex)
        x |= bits
        for e in ex:
            x.discard(e)
        if cpl:
            return ~x
        return x & ~S.immbitset()
    elif way == 'slice':
        return make(v, 'slice')[0]
    elif way == 'int':
        n = m_int(m) if not any(x > 5000 for x in s) else None
        if n is not None:
            return S.immbitset(n)
        fin = S.immbitset(bits)
    elif way in ('pickle', 'copy', 'deepcopy'):
        x = make(v, 'imm')[0]
        if way == 'pickle':
            return pickle.loads(pickle.dumps(x, p % (pickle.HIGHEST_PROTOCOL + 1)))
        return getattr(copy, way)(x)
    elif way == 'subpickle':
        x = SubImm(bits)
        fin = S.immbitset(pickle.loads(pickle.dumps(x, p % (pickle.HIGHEST_PROTOCOL + 1))))
    elif way == 'mutpickle':
        x = make(v, 'mutseg' if p % 2 else 'mut')[0]
        y = pickle.loads(pickle.dumps(x, p % (pickle.HIGHEST_PROTOCOL + 1)))
        check(isinstance(y, S.MutBitSet), 'pickled mutable bitset loads as %r', type(y))
        observe(y, m, 'pickled mutable', False)
        if p > 2:
            y = copy.copy(y)
        return S.immbitset(y)
    elif way == 'sub':
        fin = SubImm(bits)
    elif way == 'ior':
        fin = S.immbitset()
        for x in bits:
            fin |= S.immbit(x)
    elif way == 'single':
        fin = S.immbitset()
        for x in sorted(s, reverse=True):
            fin = S.immbit(x) | fin
    elif way == 'xor':
        fin = S.immbitset(list(s) + ex) ^ ex
    elif way == 'and':
        fin = S.immbitset(list(s) + ex) & ~S.immbitset(ex)
    elif way == 'seg':
        return S.immbitset(make(v, 'mutseg')[0])
    elif way == 'fromimm':
        fin = S.immbitset(S.ImmBitSet(S.immbitset(bits)))
    elif way == 'popped':
        x = S.mutbitset(bits)
        hi = [clamp(max(s, default=0) + 1 + i * 65) for i in range(p)]
        hi = [h for h in hi if h not in s]
        x |= hi
        for h in set(hi):
            x.pop()
        fin = S.immbitset(x)
    elif way == 'bs':
        # rebuild from the reduce form
        x = make(v, 'imm')[0]
        f, args = x.__reduce__()[:2]
        return f(*args)
    else:
        raise AssertionError(way)
    return ~fin if cpl else fin


def neighbour(v, nb, extra):
    cpl, bits = v
    s = set(bits)
    if nb == 0 or not s:
        return [not cpl, list(s)]
    if nb == 1:
        return [cpl, sorted(s)[1:]]
    if nb == 2:
        e = [x for x in extra if x not in s]
        return [cpl, list(s) + e[:1]] if e else [not cpl, list(s)]
    t = set(s)
    x = t.pop()
    t.add(clamp(x + 64) if clamp(x + 64) not in s else clamp(x - 64))
    return [cpl, list(t)] if t != s else [not cpl, list(s)]


def run(d, st):
    v = d['v']
    m = model(v)
    xs = []
    for way, p, q in d['ways']:
        x = build(v, way, p, q, d['extra'])
        check(is_imm(x), 'built by %s: %r', way, type(x))
        observe(x, m, 'built by ' + way, False)
        xs.append((way, x))
        st.label(way)
    n = make(neighbour(v, d['nb'], d['extra']), 'imm')[0]
    hs = set()
    for w, x in xs:
        h = hash(x)
        eq(h, hash(x), 'hash twice')
        hs.add(h)
        for w2, y in xs:
            check(x == y and not x != y and x <= y and x >= y and not x < y and not x > y,
                  'same value built by %s and %s differs: %.200r %.200r', w, w2, x, y)
        check(x != n and not x == n and not n == x, 'different values equal: %.200r %.200r', x, n)
        check(len({x, n, x}) == 2, 'set of two different bitsets')
    check(len(hs) == 1, 'equal bitsets with different hashes %r built by %r', hs, d['ways'])
    check(len({x: 0 for w, x in xs}) == 1, 'equal bitsets as distinct dictionary keys')
    if not m[0]:
        srt = sorted(m[1])
        if repr(xs[0][1]).startswith('ImmBitSet('):
            eq(sorted(eval(repr(xs[0][1])[len('ImmBitSet('):-1])), srt, 'repr')
    st.nontrivial(bool(v[1]))


# -- immbitrange against range
def gen_range(r):
    lo = gen_base(r) + r.randint(-70, 70)
    n = r.weighted([(4, r.randint(0, 200)), (1, r.randint(0, 3000)), (1, 2 ** r.randint(0, 12))])
    step = r.weighted([(3, 1), (3, r.randint(1, 10)), (2, r.randint(60, 70)), (1, r.randint(1, 1000)), (0.5, 2 ** r.randint(5, 62)),
                       (0.3, r.randint(-3, 0))])
    return {'lo': lo, 'n': n, 'step': step, 'form': r.randint(0, 2), 'off': r.randint(0, 5)}


def run_range(d, st):
    lo, n, step, form = d['lo'], max(0, d['n']), d['step'], d['form']
    if form == 0:
        lo, step = 0, 1
    elif form == 1:
        step = 1
    hi = lo + n * max(1, step) - (d['off'] % max(1, step) if n else d['off'])
    args = [(hi,), (lo, hi), (lo, hi, step)][form]
    if any(not MIN <= a <= MAX for a in args):
        raises(OverflowError, S.immbitrange, *args)
        st.label('range overflow')
        return
    if step <= 0:
        raises(ValueError, S.immbitrange, *args)
        return
    want = range(*args)
    x = S.immbitrange(*args)
    observe(x, (False, frozenset(want)), 'immbitrange%r' % (args,), False)
    y = S.immbitset(want)
    check(x == y and hash(x) == hash(y), 'immbitrange%r differs from immbitset of the range', args)
    st.label('range')
    st.nontrivial(len(want) > 1)


FACETS = {'same': (5, gen, run), 'range': (1, gen_range, run_range)}
