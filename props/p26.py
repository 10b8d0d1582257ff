"""P26: combination iterator, word rewriting, automata and regular expressions are exact."""
import itertools
import sys
import warnings
warnings.simplefilter('ignore', SyntaxWarning)
from guppy.etc import RE as R
from guppy.etc.FSA import FiniteAutomaton, CompositeState
from guppy.etc.IterPermute import iterpermute
from guppy.etc.KnuthBendix import kb
from guppy.etc.Cat import Graph, Cat, check_cat, oarcat
from pbt.core import Violation, check, eq, raises, HarnessError

SPEC = dict(
    id='P26', quick=16000, thorough=400000, stuck=300,
    rule='(permute) The combination iterator over 0 to 4 iterables of 0 to 6 items, some of them endless, is compared with the Cartesian product: first the rows with all iterables in step, every combination exactly once, no item taken before it is needed. '
         '(kb) A rewriting system is completed, for generated equations over 1 to 3 letters, with and without delimiter, or for the multiplication table of a generated monoid of maps: reduction is idempotent, both sides of an equation in any context reduce the same, '
         'words that differ in a finite monoid in which the equations hold do not; for tables equality is decided exactly. (fsa) A nondeterministic automaton is made deterministic and minimal: all words up to a length are accepted as a set simulation accepts them, and the number of states is that of the coarsest partition; '
         'its solution as a regular expression has the same words. (re) The words, simplification, reversal, limits, splits and printed form of a generated expression are compared with a reference enumeration of its language. '
         'Non-trivial: at least two items, equations, states or operators.',
    assumptions=['completion of a system that needs more than the allowed iterations may be refused', 'the enumeration of languages and of words is complete up to a length of 3 to 8'])


# ---------------------------------------------------------------- permute

def gen_p(r):
    return {'l': [r.pick(0, 1, 1, 2, 2, 3, 4, 6) for _ in range(r.randint(0, 4))], 'inf': r.randrange(5) if r.chance(.1) else -1, 'take': r.randrange(20)}


def run_permute(d, st):
    ls = [abs(x) % 7 for x in d['l']]
    taken = [0] * len(ls)

    def it(i, n):
        for j in itertools.count() if i == d['inf'] else range(n):
            taken[i] = j + 1
            yield (i, j)
    inf = 0 <= d['inf'] < len(ls)
    g = iterpermute(*[it(i, n) for i, n in enumerate(ls)])
    if inf and any(n == 0 for i, n in enumerate(ls) if i != d['inf']):
        eq(next(g, None), None, 'combinations with an empty iterable')
        return
    if inf:
        for k in range(d['take']):
            eq(next(g), tuple((i, k if i == d['inf'] else k % n) for i, n in enumerate(ls)), 'row %d', k)
            check(all(t <= k + 1 for t in taken), 'row %d: items taken %r', k, taken)
        return
    want = list(itertools.product(*[[(i, j) for j in range(n)] for i, n in enumerate(ls)]))
    m = max(ls, default=0) if want else 0
    got = []
    for k, x in enumerate(g):
        check(type(x) is tuple, 'row of type %s', type(x))
        if k < m:
            eq(x, tuple((i, k % n) for i, n in enumerate(ls)), 'row %d', k)
            check(all(t <= k + 1 for t in taken), 'row %d: items taken %r', k, taken)
        got.append(x)
        check(k <= len(want), 'more than %d rows', len(want))
    eq(sorted(got), sorted(want), 'combinations')
    st.nontrivial(len(want) > 1)


# ---------------------------------------------------------------- Knuth-Bendix

def gen_kb(r):
    k = r.pick(1, 2, 2, 2, 3)
    c = {'k': k, 'delim': r.pick('', '', '.', '.', '::'), 'names': r.randrange(3)}
    if r.chance(.5):
        n = r.pick(1, 2, 2, 3)
        c['maps'] = [[r.randrange(n) for _ in range(n)] for _ in range(k)]
    else:
        w = lambda hi: [r.randrange(k) for _ in range(r.randint(0, hi))]
        c['e'] = [[w(r.pick(2, 3, 4)), w(r.pick(0, 1, 2, 3))] for _ in range(r.randint(0, 4))]
    c['wrap'] = r.chance(.3)
    return c


def monoid(maps):
    """shortlex minimal words of the monoid of maps and its value -> word"""
    n = len(maps[0])
    one = tuple(range(n))
    best = {one: ()}
    todo = [one]
    for v in todo:
        for i, m in enumerate(maps):
            x = tuple(m[a] for a in v)
            if x not in best:
                best[x] = best[v] + (i,)
                todo.append(x)
    return best, one


def value(w, maps, one):
    v = one
    for i in w:
        v = tuple(maps[i][a] for a in v)
    return v


def words(k, hi, limit=4000):
    out = []
    for n in range(hi + 1):
        if len(out) + k ** n > limit:
            break
        out.extend(itertools.product(range(k), repeat=n))
    return out


def run_kb(d, st):
    k = max(1, min(3, d['k']))
    delim = d['delim']
    if d.get('names') and delim:
        names = [['a', 'b', 'c'], ['aa', 'a', 'ba'], ['x1', 'y', 'x']][d['names'] % 3]
    else:
        names = ['a', 'b', 'c']
    txt = lambda w: delim.join(names[i] for i in w)
    if delim and d['wrap']:
        wr = lambda w: delim + ''.join(names[i] + delim for i in w)
    else:
        wr = txt
    maps = d.get('maps')
    if maps is not None:
        n = max(1, min(len(m) for m in maps)) if maps and all(maps) else 0
        if not n:
            return
        maps = [[x % n for x in m[:n]] for m in maps][:k]
        k = len(maps)
        best, one = monoid(maps)
        E = []
        for v, w in best.items():
            for i in range(k):
                m = best[value(w + (i,), maps, one)]
                if m != w + (i,):
                    E.append((w + (i,), m))
    else:
        E = [(tuple(x % k for x in a), tuple(x % k for x in b)) for a, b in d['e']]
        E = [(a, b) for a, b in E if a or b]
    try:
        A = kb([(wr(a), wr(b)) for a, b in E], delim=delim, max_iterations=60 if maps is not None else 3)
    except ValueError:
        if maps is not None:
            raise Violation('the table of a monoid with %d elements is not completed' % len(best))
        st.label('refused')
        return
    ws = words(k, 8, 700 if len(A.reductions) < 40 else 200)
    nf = {}
    back = {}
    for w in ws:
        t = A.reduce(wr(w))
        nf[w] = t
        if delim:
            check(not t.startswith(delim) and not t.endswith(delim), 'reduced word %r', t)
        parts = t.split(delim) if delim and t else list(t)
        check(all(p in names for p in parts), 'reduced word %r has other letters', t)
        x = tuple(names.index(p) for p in parts)
        back.setdefault(t, x)
        eq(A.reduce(t), t, 'reduced word reduced again')
    st.label('complete')
    st.nontrivial(len(E) > 1)
    for a, b in E:
        eq(A.reduce(wr(a)), A.reduce(wr(b)), 'sides %r, %r of an equation', wr(a), wr(b))
        check(A(wr(a), wr(b)), 'sides %r, %r of an equation are not equal', wr(a), wr(b))
    for w in ws:
        for a, b in E:
            for i in range(len(w) - len(a) + 1):
                if w[i:i + len(a)] == a:
                    y = w[:i] + b + w[i + len(a):]
                    got = nf[y] if y in nf else A.reduce(wr(y))
                    if got != nf[w]:
                        raise Violation('%r and %r are equal by %r = %r but reduce to %r and %r' % (txt(w), txt(y), txt(a), txt(b), nf[w], got))
    if maps is not None:
        models = [(maps, one)]
        for w in ws:
            same = A(wr(w), wr(best[value(w, maps, one)]))
            check(same, '%r is not found equal to %r', txt(w), txt(best[value(w, maps, one)]))
        eq(len(set(nf.values())), len({value(w, maps, one) for w in ws}), 'number of different words')
    else:
        models = []
        fs = list(itertools.product(range(2), repeat=2))
        for n in (2, 3):
            fs = list(itertools.product(range(n), repeat=n))
            cand = itertools.product(fs, repeat=k) if len(fs) ** k <= 800 else [tuple(fs[(i * 7 + j * j * 5 + 3) % len(fs)] for j in range(k)) for i in range(300)]
            on = tuple(range(n))
            for ms in cand:
                if all(value(a, ms, on) == value(b, ms, on) for a, b in E):
                    models.append((ms, on))
        models = models[:60]
    for ms, on in models:
        for w in ws:
            x = back[nf[w]]
            if value(w, ms, on) != value(x, ms, on):
                raise Violation('%r is reduced to %r, they differ when the letters are %r' % (txt(w), nf[w], ms))


# ---------------------------------------------------------------- automata

def gen_f(r):
    n = r.randint(1, 6)
    tr = []
    for s in range(n):
        for a in range(2):
            if r.chance(.75):
                tr.append([s, a, [r.randrange(n) for _ in range(r.pick(1, 1, 1, 2, 3))]])
    r.shuffle(tr)
    return {'n': n, 't': tr, 'f': [r.randrange(n) for _ in range(r.randint(0, 3))], 'set': r.chance(.2), 'again': r.chance(.3), 'start': r.pick(0, 0, r.randrange(n))}


def run_fsa(d, st):
    n = max(1, d['n'])
    T = {}
    for s, a, nx in d['t']:
        nx = [x % n for x in nx]
        if nx:
            T[s % n, a % 2] = nx
    start = d['start'] % n
    finals = {x % n for x in d['f']}
    name = lambda s: 's%d' % s
    sym = 'ab'
    F = FiniteAutomaton(name(start))
    for s in range(n):
        F.table.setdefault(name(s), {})
    for (s, a), nx in T.items():
        if d['set'] and len(nx) == 1:
            F[name(s), sym[a]] = name(nx[0])
        else:
            F.add_transition(name(s), sym[a], *[name(x) for x in nx])
    comps = F.get_composites()
    fin = {name(x): 1 for x in finals}
    for c in comps:
        if any(x in fin for x in c):
            fin[c] = 1
    M = F.get_minimized_dfa(fin)
    if d['again']:
        M = F.get_minimized_dfa(fin)

    def accepts(S):
        out = {}

        def go(w, cur, st_, depth):
            out[w] = bool(cur & finals)
            if depth:
                for a in range(2):
                    go(w + sym[a], frozenset(y for x in cur for y in T.get((x, a), ())), None, depth - 1)
        go('', frozenset([start]), None, S)
        return out
    ref = accepts(8 if n < 5 else 7)

    def run(table, s, w):
        for a in w:
            s = table.get(s, {}).get(a)
            if s is None:
                return None
        return s
    for w, a in ref.items():
        s = run(F.table, F.start_state, w)
        check((s in fin) == a, 'deterministic automaton on %r: %s', w, s)
        s = run(M.table, M.start_state, w)
        check((s in M.final_states) == a, 'minimal automaton on %r: %s', w, s)
    # coarsest partition of the deterministic automaton
    tab = F.table
    cls = {s: (tuple(sorted(t)), s in fin) for s, t in tab.items()}
    while 1:
        num = {}
        new = {}
        for s, t in tab.items():
            new[s] = (cls[s], tuple((a, cls[t[a]]) for a in sorted(t)))
        for s in new:
            new[s] = num.setdefault(new[s], len(num))
        if len(set(new.values())) == len(set(cls.values())):
            break
        cls = new
    eq(len([x for x in M.table if x != '']), len(set(cls.values())), 'states of the minimal automaton')
    check(M.start_state in M.table and all(v in M.table for t in M.table.values() for v in t.values()), 'targets of the minimal automaton')
    st.nontrivial(len(tab) > 3)
    st.label('composites' if comps else 'deterministic')
    # as a regular expression
    seen = {M.start_state}
    todo = [M.start_state]
    for s in todo:
        for v in M.table[s].values():
            if v not in seen:
                seen.add(v)
                todo.append(v)
    if not any(s in M.final_states for s in seen):
        st.label('empty')
        return
    M.table = {s: t for s, t in M.table.items()}
    e = R.SolveFSA(M)
    st.label('loop at start' if any(M.start_state in M.table[s].values() for s in seen) else 'no loop at start')
    N = 5
    got = lang(e, N)
    want = {w for w, a in ref.items() if a and len(w) <= N}
    eq(sorted(got), sorted(want), 'words of the expression solved')


# ---------------------------------------------------------------- regular expressions

def lang(e, N):
    """the words of length <= N of an RE of the library; an independent reading of its structure"""
    memo = {}

    def f(e):
        if id(e) in memo:
            return memo[id(e)][1]
        if isinstance(e, R.Seq):
            w = ''.join(e)
            r = {w} if len(w) <= N else set()
        elif isinstance(e, R.Concatenation):
            r = {''}
            for c in e:
                x = f(c)
                r = {a + b for a in r for b in x if len(a) + len(b) <= N}
        elif isinstance(e, R.Union):
            r = set()
            for c in e:
                r |= f(c)
        elif e._name == '?':
            r = {''} | f(e[0])
        else:
            x = f(e[0])
            r = {''}
            new = r
            while new:
                new = {a + b for a in new for b in x if len(a) + len(b) <= N} - r
                r = r | new
            if e._name == '+' and '' not in x:
                r = r - {''}
        memo[id(e)] = e, r
        return r
    return f(e)


def gen_e(r, n):
    if n <= 1:
        return r.weighted([(6, ['s', r.choice('abc')]), (2, ['s', ''.join(r.choice('abc') for _ in range(r.randint(2, 3)))]), (1, ['s', ''])])
    k = r.weighted([(4, '+'), (4, '|'), (1.2, '*'), (.9, 'p'), (1, '?'), (.5, '+s')])
    if k in ('*', 'p', '?'):
        return [k, gen_e(r, n - 1)]
    if k == '+s':
        return [k, gen_e(r, n - 1), r.choice('abc')]
    m = r.pick(2, 2, 3)
    return [k] + [gen_e(r, max(1, (n - 1) // m)) for _ in range(m)]


def gen_r(r):
    return {'e': gen_e(r, r.pick(1, 2, 3, 4, 6, 8, 10)), 'N': r.randint(2, 4)}


def build(e):
    k = e[0]
    if k == 's':
        return R.Seq(*e[1])
    a = [build(x) for x in e[1:]] if k != '+s' else [build(e[1])]
    if k == '+':
        x = a[0]
        for y in a[1:]:
            x = x + y
        return x
    if k == '+s':
        return a[0] + (e[2] or 'a')
    if k == '|':
        x = a[0]
        for y in a[1:]:
            x = x | y
        return x
    return a[0]({'*': '*', 'p': '+', '?': '?'}[k])


def model(e, N):
    k = e[0]
    if k == 's':
        return {e[1]} if len(e[1]) <= N else set()
    a = [model(x, N) for x in e[1:]] if k != '+s' else [model(e[1], N), {e[2] or 'a'}]
    if k in ('+', '+s'):
        r = {''}
        for x in a:
            r = {u + v for u in r for v in x if len(u) + len(v) <= N}
        return r
    if k == '|':
        return set().union(*a)
    x = a[0]
    if k == '?':
        return x | {''}
    r = {''}
    new = r
    while new:
        new = {u + v for u in new for v in x if len(u) + len(v) <= N} - r
        r = r | new
    return r if k == '*' or '' in x else r - {''}


def star(e):
    return e[0] in ('*', 'p') or any(star(x) for x in e[1:] if type(x) is list)


def ops(e):
    return (e[0] != 's') + sum(ops(x) for x in e[1:] if type(x) is list)


def parse(s):
    """read the printed form: letters, spaces between, |, postfix * + ?, ()"""
    p = [0]
    t = s.replace(' ', '')

    def alt():
        xs = [seq()]
        while p[0] < len(t) and t[p[0]] == '|':
            p[0] += 1
            xs.append(seq())
        return ['|'] + xs if len(xs) > 1 else xs[0]

    def seq():
        xs = []
        while p[0] < len(t) and t[p[0]] not in '|)':
            if t[p[0]] == '(':
                p[0] += 1
                x = alt() if t[p[0]] != ')' else ['s', '']
                check(p[0] < len(t) and t[p[0]] == ')', 'printed form %r', s)
                p[0] += 1
            else:
                x = ['s', t[p[0]]]
                check(t[p[0]] in 'abc', 'printed form %r', s)
                p[0] += 1
            while p[0] < len(t) and t[p[0]] in '*+?':
                x = [{'*': '*', '+': 'p', '?': '?'}[t[p[0]]], x]
                p[0] += 1
            xs.append(x)
        check(xs, 'printed form %r', s)
        return ['+'] + xs if len(xs) > 1 else xs[0]
    x = alt()
    eq(p[0], len(t), 'read of the printed form %r', s)
    return x


def run_re(d, st):
    e = d['e']
    N = max(1, min(5, d['N']))
    x = build(e)
    want = model(e, N)
    memo = x.get_words_memo()
    for n in range(N + 1):
        ws = memo.get_words_of_length(n)
        l = [''.join(w) for w in ws]
        eq(len(l), len(set(l)), 'words of length %d: repeated', n)
        eq(sorted(l), sorted(w for w in want if len(w) == n), 'words of length %d of %r', n, x)
    eq(sorted(''.join(w) for n, l in memo.get_words_of_length_upto(N) for w in l), sorted(want), 'words up to length %d', N)
    eq(sorted(''.join(w) for w in x.get_words_of_length(N)), sorted(w for w in want if len(w) == N), 'words of length %d', N)
    eq(sorted(lang(x, N)), sorted(want), 'words read off %r', x)
    s = x.simplified()
    eq(sorted(lang(s, N)), sorted(want), 'words of the simplification %r of %r', s, x)
    eq(sorted(lang(s.simplified(), N)), sorted(want), 'words of the second simplification of %r', x)
    eq(sorted(lang(x.reversed(), N)), sorted(w[::-1] for w in want), 'words of the reverse of %r', x)
    for y in (x, s):
        f = y.regexpform()
        eq(sorted(model(parse(f), N)), sorted(want), 'words of the printed form %r of %r', f, x)
        eq(sorted(model(parse(y.simulform()), N)), sorted(want), 'words of the printed form %r of %r', y.simulform(), x)
    l = lang(R.Union(*x.unionsplitted()), N)
    eq(sorted(l), sorted(want), 'words of the parts of %r', x)
    for m in (0, 1, 2):
        l = lang(x.limited(m), N)
        check(l <= want, 'limited to %d: words %r of %r', m, sorted(l - want)[:5], x)
        check({w for w in want if len(w) <= m} <= l, 'limited to %d: words %r of %r are missing', m, sorted(want - l)[:5], x)
    if star(e):
        raises(R.InfiniteError, x.sequni)
    elif ops(e) < 9:
        u = x.sequni()
        check(all(type(w) is R.Seq for w in u), 'items of sequni of %r', x)
        l = [''.join(w) for w in u]
        eq(len(l), len(set(l)), 'words of sequni of %r: repeated', x)
        eq(sorted(l), sorted(model(e, 100)), 'words of sequni of %r', x)
    check(x == build(e) and hash(x) == hash(build(e)), 'equal expressions')
    st.nontrivial(ops(e) > 1)


# ---------------------------------------------------------------- categories

def gen_c(r):
    n = r.randint(1, 4)
    ar = [[r.randrange(n), r.randrange(n)] for _ in range(r.randint(1, 6))]
    return {'n': n, 'a': ar, 'r': [[[r.randrange(len(ar)) for _ in range(r.randint(0, 3))] for _ in range(2)] for _ in range(r.randint(0, 3))], 'bad': r.chance(.2), 'walk': r.chance(.7), 's': r.randrange(1000)}


def run_cat(d, st):
    n = max(1, d['n'])
    ar = {'f%d' % i: ('o%d' % (s % n), 'o%d' % (t % n)) for i, (s, t) in enumerate(d['a'])}
    if not ar:
        return
    if d['bad']:
        ar['f0'] = ('zz', ar['f0'][1])
    names = sorted(ar)
    rel = []
    for a, b in d['r']:
        rel.append(tuple(tuple(names[i % len(names)] for i in w) for w in (a, b)))
    objs = ['o%d' % i for i in range(n)]
    ok = all(s in objs and t in objs for s, t in ar.values())
    for a, b in rel:
        for w in (a, b):
            ok = ok and all(ar[p][1] == ar[q][0] for p, q in zip(w, w[1:]))
    C = oarcat(objs, dict(ar), list(rel))
    if ok:
        check_cat(C)
    else:
        raises(ValueError, check_cat, C)
    D = C.get_dual()
    eq(D.graph.arrows, {k: (t, s) for k, (s, t) in ar.items()}, 'arrows of the dual')
    eq(D.relations, [(a[::-1], b[::-1]) for a, b in rel], 'relations of the dual')
    DD = D.get_dual()
    eq((DD.graph.arrows, DD.relations, DD.graph.objects), (ar, rel, objs), 'the dual of the dual')
    eq(C.graph.arrows, ar, 'the category afterwards')
    if ok:
        check_cat(D)
    st.nontrivial(len(rel) > 1)


FACETS = {
    'permute': (2, gen_p, run_permute),
    'kb': (1, gen_kb, run_kb),
    'fsa': (3, gen_f, run_fsa),
    're': (4, gen_r, run_re),
    'cat': (.5, gen_c, run_cat),
}


def setup():
    sys.setrecursionlimit(3000)
