"""P17: statistics: dump and load, difference, slicing and lookup."""
import gc
import io
import os
import tempfile
from props.hpy import *
from props import graph, p07, popul, kinds

SPEC = dict(
    id='P17', quick=9000, thorough=400000,
    rule='A case is 1 to 4 statistics (tables with generated rows, counts, sizes and names, or of sets of a generated population by generated relations) and 1 to 14 steps: row access in any order, slices, differences, '
         'lookup of kinds, the N largest and other, dump to one of two files or buffers in several modes, load by name, by file, by line, as a list, all of a file. Every statistic is compared, at once or later, with a model '
         'table; every load with the sequence of tables dumped. Non-trivial: some table has 2 or more rows and at least 2 different kinds of steps are made.',
    assumptions=['a file that is loaded by name is not overwritten, except by the statistic itself, while rows of it are still to be read',
                 'the statistics of a set are those of its partition rows, which P14 decides'])

WORDS = ['int', 'str', 'dict of gm.C', '<Nothing>', 'a', 'b', ' ', '.r: 1 2 x', '.end: .loader: _load_stat', '<Other>', '12', '1 2 3', '-1', '\n', '\r', '\\n', '\\', '\u00e9', '\U0001f600', '\t', "'", '"', '.', '[0]',
         '\x0b', '\x85', '\u2028', '\x00', '.kindname: q', '.r!: ', '!', ':', '']


def gen_name(r):
    if r.chance(0.55):
        return r.choice(['int', 'str', 'a', 'b', 'c', 'dict of gm.C', '<Other>'])
    return ''.join(r.choice(WORDS) for _ in range(r.randint(0, 4)))


def gen_num(r, neg):
    n = r.pick(0, 1, 1, 2, 3, r.randrange(100), r.randrange(10 ** 6), 2 ** 31, 2 ** 63, 10 ** 30)
    return -n if neg and r.chance(0.4) else n


def gen_tab(r):
    fmt = r.weighted([(5, 'SetFormat'), (2, 'IdFormat'), (1, 'DiffFormat')])
    rows = []
    for _ in range(r.pick(0, 1, 2, 3, 6, 12, 25)):
        rows.append([1 if fmt == 'IdFormat' else gen_num(r, fmt == 'DiffFormat'), gen_num(r, fmt == 'DiffFormat'), gen_name(r)])
    return {'f': fmt, 'r': rows, 'k': r.pick('Kind', 'Kind', 'Kind', 'Referrers', gen_name(r)), 'n': r.pick('', '', 'int', gen_name(r)), 't': r.randrange(10 ** 15),
            'b': [gen_num(r, 0), gen_num(r, 0)] if fmt == 'DiffFormat' else None, 'tot': r.chance(0.7)}


def gen_steps(r):
    S = []
    for _ in range(r.randint(1, 14)):
        i = r.randrange(99)
        S.append(r.weighted([
            (2, ['row', i, r.randint(-8, 20), r.randrange(3)]), (2, ['check', i]), (2, ['get', i, r.randint(-9, 9)]),
            (2, ['slice', i, [r.pick(None, r.randint(-9, 9)), r.pick(None, r.randint(-9, 9)), r.pick(None, None, 1, 2, -1, -2)]]),
            (3, ['sub', i, r.randrange(99)]), (1, ['of', i, [r.randint(-2, 12) for _ in range(r.randint(0, 4))]]), (1, ['other', i, r.randrange(8), r.randrange(2)]),
            (6, ['dump', i, r.randrange(2), r.randrange(5)]), (2, ['loadn', r.randrange(2), r.randrange(2)]), (5, ['load', r.randrange(2), r.randrange(5)]), (1, ['bad', i, r.randrange(4)])]))
    return S


def gen_synth(r):
    return {'t': [gen_tab(r) for _ in range(r.randint(1, 4))], 's': gen_steps(r)}


def gen_heap(r):
    return {'p': popul.gen_pop(r, hi=8, vals=8), 'er': [kinds.gen_er(r) for _ in range(r.randint(1, 3))], 'cut': [[r.randrange(8), r.randrange(8)] for _ in range(r.randint(1, 4))], 's': gen_steps(r),
            'odd': [[gen_name(r), r.choice(['gm', 'gm', gen_name(r)])] for _ in range(r.pick(0, 0, 1, 1, 2))], 'only': r.chance(0.3)}


def odd_object(name, module):
    """an instance of a class with any name"""
    return type(name.replace('\0', '') or 'e', (), {'__module__': module, '__slots__': ('a',)})()


def setup():
    gc.disable()
    graph.strip_modules()
    p07.setup()


class Tab:
    """model of a statistic"""

    def __init__(self, fmt, rows, kindheader, kindname, timemade, count, size, b=None, lazy=None):
        self.fmt, self.rows, self.kindheader, self.kindname, self.timemade = fmt, rows, kindheader, kindname, timemade
        self.count, self.size, self.b, self.lazy = count, size, b, lazy


def verify_row(row, t, i, what):
    c, s, n = t.rows[i]
    eq((row.count, row.size, row.name, row.index, row.cumulsize), (c, s, n, i, sum(x[1] for x in t.rows[:i + 1])), '%s: row %d', what, i)


def verify(s, t, what):
    eq(len(s), len(t.rows), '%s: number of rows', what)
    eq(s.numrows, len(t.rows), '%s: numrows', what)
    eq((s.count, s.size), (t.count, t.size), '%s: count and size', what)
    eq(s.kindheader, t.kindheader, '%s: kind header', what)
    eq(s.kindname, t.kindname, '%s: kind name', what)
    eq(s.format_name, t.fmt, '%s: format', what)
    if t.timemade is not None:
        eq(s.timemade, t.timemade, '%s: time', what)
    else:
        t.timemade = s.timemade
    eq((getattr(s, 'b_count', None), getattr(s, 'b_size', None)), tuple(t.b or (None, None)), '%s: counts of what was subtracted', what)
    rows = list(s.get_rows())
    eq(len(rows), len(t.rows), '%s: rows', what)
    for i, row in enumerate(rows):
        verify_row(row, t, i, what)


def run_synth(d, st):
    h = hp()
    pool = []
    for t in d['t']:
        count, size = sum(x[0] for x in t['r']), sum(x[1] for x in t['r'])
        if not t['tot']:
            count, size = count + 7, size + 9
        tm = '%.6f' % (t['t'] / 1000000.)
        # an own writer of the format, from its description: header lines, then one line per row
        k, n = t['k'].replace('\n', '').replace('\r', '').strip(), t['n'].replace('\n', '').replace('\r', '').strip()
        rows = [(c, s, x.replace('\n', '').replace('\r', '')) for c, s, x in t['r']]
        L = ['.loader: _load_stat', '.format: %s' % t['f'], '.timemade: %s' % tm, '.count: %d' % count, '.size: %d' % size, '.kindname: %s' % n, '.kindheader: %s' % k, '.numrows: %d' % len(rows)]
        if t['b']:
            L += ['.b_count: %d' % t['b'][0], '.b_size: %d' % t['b'][1]]
        for c, s, x in rows:
            L.append('.r: %d %s' % (s, x) if t['f'] == 'IdFormat' else '.r: %d %d %s' % (c, s, x))
        pool.append((h.load(L), Tab(t['f'], rows, k, n, float(tm), count, size, t['b'])))
    steps(h, pool, d['s'], st)


def run_heap(d, st):
    P = popul.Pop(d['p'])
    h = hp()
    V = h.View
    old = V.root
    try:
        V.root = P.root
        gc.collect()
        P.world()
        T = P.targets()
        odd = [odd_object(*x) for x in d['odd']]
        P.root.append(odd)
        T = odd + [] if d['only'] and odd else T + odd
        pool = []
        for a, b in d['cut'] if T else ():
            er = kinds.er_of(h, d['er'][a % len(d['er'])])
            X = h.iso(*(T if b == 0 else [o for i, o in enumerate(T) if (i * 7 + b) % 4]))
            if not X:
                continue
            p = X.by(er).partition
            rows = [(r.count, r.size, r.name) for r in p.get_rows()]
            s = X.by(er).stat
            fmt = 'IdFormat' if er is h.Id else 'SetFormat'
            pool.append((s, Tab(fmt, rows, p.kindheader, p.kindname, None, sum(r[0] for r in rows), sum(r[1] for r in rows))))
            verify(*pool[-1], 'statistics of a set')
        V.root = old
        if pool:
            steps(h, pool, d['s'], st)
    finally:
        V.root = old
        P.close() if hasattr(P, 'close') else None


def diff(a, b):
    """model of the difference: name -> [count, size]"""
    m = {}
    for sign, t in ((1, a), (-1, b)):
        for c, s, n in t.rows:
            x = m.setdefault(n, [0, 0])
            x[0] += sign * c
            x[1] += sign * s
    return {n: x for n, x in m.items() if x != [0, 0]}


class Slot:
    def __init__(self, path):
        self.path = path
        self.tabs = []      # models of what was dumped to it, in order
        self.buf = io.StringIO()


def steps(h, pool, S, st):
    did = set()
    with tempfile.TemporaryDirectory(prefix='p17') as tmp:
        slots = [Slot(os.path.join(tmp, 'f%d' % i)) for i in range(2)]
        bufs = [Slot(None) for i in range(2)]
        for step in S:
            op = step[0]
            try:
                if do(h, pool, slots, bufs, step, st):
                    did.add(op)
                    st.label(op)
            except Exception as e:
                if not isinstance(e, Violation):
                    e.add_note('in step %r' % (step,))
                raise
        for i, (s, t) in enumerate(pool):
            verify(s, t, 'statistic %d at the end' % i)
    st.nontrivial(any(len(t.rows) >= 2 for s, t in pool) and len(did) >= 2)


def add(pool, s, t):
    if len(pool) < 14:
        pool.append((s, t))
    else:
        verify(s, t, 'statistic')


def do(h, pool, slots, bufs, step, st):
    op = step[0]
    if op not in ('load', 'loadn'):
        i = step[1] % len(pool)
        s, t = pool[i]
        what = '%s of statistic %d' % (step, i)
        n = len(t.rows)
    if op == 'row':
        j = step[2]
        if step[3] == 0:
            if 0 <= j < n:
                verify_row(s.get_row(j), t, j, what)
            elif j >= n:
                raises(IndexError, s.get_row, j)
        elif 0 <= j:
            it = s.get_rows(j)
            if step[3] == 1:
                got = list(it)
            else:
                got = [x for x, _ in zip(it, range(2))]
            eq(len(got), min(max(0, n - j), 99999 if step[3] == 1 else 2), '%s: number of rows from %d', what, j)
            for k, row in enumerate(got):
                verify_row(row, t, j + k, what)
    elif op == 'check':
        verify(s, t, what)
    elif op in ('get', 'slice'):
        j = step[2]
        if op == 'get':
            if not -n <= j < n:
                raises(IndexError, lambda: s[j])
                return True
            got, rows = s[j], [t.rows[j]]
        else:
            got, rows = s[slice(*j)], t.rows[slice(*j)]
        add(pool, got, Tab(t.fmt, rows, t.kindheader, t.kindname, t.timemade, sum(r[0] for r in rows), sum(r[1] for r in rows), t.b))
    elif op == 'sub':
        s2, t2 = pool[step[2] % len(pool)]
        if t.kindheader != t2.kindheader:
            raises(ValueError, lambda: s - s2)
            return True
        m = diff(t, t2)
        r = s - s2
        rows = [(x.count, x.size, x.name) for x in r.get_rows()]
        got = {}
        for c, z, name in rows:
            x = got.setdefault(name, [0, 0])
            x[0] += c
            x[1] += z
        got = {k: x for k, x in got.items() if x != [0, 0]}
        check(got == m, '%s: difference is %r, want %r', what, {k: x for k, x in got.items() if m.get(k) != x}, {k: x for k, x in m.items() if got.get(k) != x})
        names = [x[2] for x in rows if x[:2] != (0, 0)]
        check(len(set(names)) == len(names), '%s: a name has two rows: %s', what, names)
        sz = [abs(x[1]) for x in rows]
        check(sz == sorted(sz, reverse=True), '%s: not the largest differences first: %s', what, sz)
        tab = Tab('DiffFormat', rows, t.kindheader, t.kindname, None, sum(x[0] for x in m.values()), sum(x[1] for x in m.values()), (t2.count, t2.size))
        verify(r, tab, what)
        label = str(r.all).split('\n')[:4]
        want = [['A', t2.count + tab.count, t2.size + tab.size], ['B', t2.count, t2.size], ['A-B', tab.count, tab.size]]
        for line, w in zip(label[2:], want[:2]):
            eq(line.split(), [str(x) for x in w], '%s: label', what)
        add(pool, r, tab)
    elif op == 'of':
        names = []
        for j in step[2]:
            x = t.rows[j % n][2] if n and j >= 0 else 'no such %d' % j
            if x not in names and sum(y[2] == x for y in t.rows) <= 1:
                names.append(x)
        got = s.get_rows_of_kinds(names)
        eq(len(got), len(names), '%s: rows of kinds', what)
        for x, row in zip(names, got):
            w = [j for j, y in enumerate(t.rows) if y[2] == x]
            if w:
                check(row is not None, '%s: row of kind %r not found', what, x)
                verify_row(row, t, w[0], what)
            else:
                check(row is None, '%s: row of kind %r found', what, x)
    elif op == 'other':
        by = ('Size', 'Count')[step[3]]
        if t.count != sum(x[0] for x in t.rows) or t.size != sum(x[1] for x in t.rows):
            return False
        N = step[2]
        got = [(x.count, x.size, x.name) for x in s.get_rows_n_and_other(N, by)]
        rows = list(t.rows)
        if by == 'Count':
            rows.sort(key=lambda x: x[0], reverse=True)
        first = rows[:N]
        if n > N:
            o = (t.count - sum(x[0] for x in first), t.size - sum(x[1] for x in first), '<Other>')
            check(o in got, '%s: no row <Other>, %r in %r', what, o, got)
            rest = list(got)
            rest.reverse()
            rest.remove(o)
            rest.reverse()
            check(sorted(rest) == sorted(first), '%s: rows %r, want %r', what, rest, first)
            col = [x[by == 'Size'] for x in first]
            if col == sorted(col, reverse=True):
                col = [x[by == 'Size'] for x in got]
                check(col == sorted(col, reverse=True), '%s: the row <Other> is not at its place by %s: %r', what, by, got)
        else:
            eq(got, first, '%s: rows', what)
    elif op == 'dump':
        f = slots[step[2]]
        how = step[3]
        if how == 4:
            b = bufs[step[2]]
            s.dump(b.buf)
            b.tabs.append(t)
            return True
        if how == 0 and any(u.lazy is f for u in (x[1] for x in pool) if u is not t):
            how = 1
        if how == 0:
            s.dump(f.path, 'w')
            f.tabs = [t]
        elif how == 1:
            s.dump(f.path)
            f.tabs.append(t)
        elif how == 2:
            s.dump(f.path, mode='a')
            f.tabs.append(t)
        else:
            with open(f.path, 'a') as o:
                s.dump(o)
                s.dump(o)
            f.tabs += [t, t]
        if os.path.getsize(f.path) > 3000000:
            raise Violation('%s: the file became %d bytes' % (what, os.path.getsize(f.path)))
    elif op == 'loadn':
        f = slots[step[1]]
        if not f.tabs:
            return False
        s, t = h.load(f.path), f.tabs[0]
        t = Tab(t.fmt, t.rows, t.kindheader, t.kindname, t.timemade, t.count, t.size, t.b, f)
        if step[2]:
            verify(s, t, '%s: first table in the file' % step)
        add(pool, s, t)
    elif op == 'load':
        how = step[2]
        f = slots[step[1]] if how != 4 else bufs[step[1]]
        if not f.tabs:
            return False
        got = []
        if how in (0, 1):
            with open(f.path) as o:
                for _ in range(len(f.tabs)):
                    got.append(h.load(o, use_readline=how))
                raises(StopIteration, lambda: h.load(o, use_readline=how))
        elif how == 2:
            got = list(h.loadall(f.path))
        elif how == 3:
            with open(f.path) as o:
                L = o.readlines()
            got = [h.load(L)]
            it = iter(L)
            got2 = [h.load(it) for _ in range(len(f.tabs))]
            for x, t in zip(got2, f.tabs):
                verify(x, t, '%s: table from an iterator' % step)
        else:
            pos = f.buf.tell()
            f.buf.seek(0)
            for _ in range(len(f.tabs)):
                got.append(h.load(f.buf))
            f.buf.seek(pos)
        if how != 3:
            eq(len(got), len(f.tabs), '%s: number of tables in the file', step)
        for x, t in zip(got, f.tabs):
            if t.timemade is None:
                t.timemade = x.timemade
            verify(x, t, '%s: table from the file' % step)
            if t.fmt == 'DiffFormat' or t.count and t.size:
                eq(str(x.all), str(h.load([y for y in x.get_trows()]).all), '%s: printed form of the table loaded again' % step)
        add(pool, got[-1], f.tabs[len(got) - 1])
    elif op == 'bad':
        k = step[2]
        if k == 0:
            raises(TypeError, lambda: s - 5)
        elif k == 1:
            raises(IndexError, lambda: s['a'])
        elif k == 2:
            raises(ValueError, lambda: h.load(['.r: 1 2 3']))
        else:
            raises(ValueError, lambda: h.load(['.loader: _nothing_like_it']))
    return True


FACETS = {
    'synth': (3, gen_synth, run_synth),
    'heap': (2, gen_heap, run_heap),
}
