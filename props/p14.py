"""P14: partitions: rows, figures, order, row selection, printing."""
import gc
import itertools
from props.hpy import *
from props import graph, p07, p10, values, popul, kinds

SPEC = dict(
    id='P14', quick=8000, thorough=300000,
    rule='A case is a population (generated object graph, data objects of 56 kinds, same-named classes) below a root, a picked subset of what it reaches, and equivalence relations built from the nine basic ones by dictof, '
         'refdby and &; the rows of each partition are compared with the classes of a model, their figures with the members, their order and the printed and statistical forms with the rows, and generated row indexes and '
         'slices with the union of the rows. Non-trivial: some partition has 3 or more rows and one row has 2 or more members.',
    assumptions=['classes by model: type, owner of a dictionary, real size, identity, referrers by inverting the reference relation',
                 'rows come largest first; among rows of the same size by name; rows by identity of the same size in no specified order'])


def setup():
    gc.disable()
    graph.strip_modules()
    p07.setup()


def gen_idx(r):
    x = r.random()
    if x < 0.4:
        return r.randint(-12, 12)
    return [r.pick(None, r.randint(-12, 12)), r.pick(None, r.randint(-12, 12)), r.pick(None, None, 1, 2, 3, 7)]


def gen_part(r):
    return {'p': popul.gen_pop(r), 'er': [kinds.gen_er(r) for _ in range(r.randint(1, 4))], 'idx': [gen_idx(r) for _ in range(r.randint(0, 6))],
            'sub': r.randrange(8), 'order': r.randrange(3), 'str': r.chance(0.3)}


def rows_of(s):
    return [(r.count, r.size, r.name, r.index, r.cumulsize) for r in s.get_rows()]


def lines_of(h, x, names):
    """The printed table of x, in full, as lists of the columns"""
    old = h._parent.Part.line_length
    h._parent.Part.line_length = 100000
    try:
        s = str(x.all) if hasattr(x, 'all') else str(x)
    finally:
        h._parent.Part.line_length = old
    return s.split('\n')


def pct(a, b):
    return int('%.0f' % (a * 100.0 / b))


def check_table(lines, rows, count, size, header):
    """lines: the printed table without its label"""
    out = []
    i = 0
    for line in lines:
        f = line.split(None, 7)
        out.append(line)
    if not rows:
        return
    text = '\n'.join(lines[1:])
    pos = 0
    for (c, s, name, index, cum) in rows:
        want = '%6d %6d %3d %8d %3d %9d %3d ' % (index, c, pct(c, count), s, pct(s, size), cum, pct(cum, size))
        if not name:
            want = want.rstrip()
        p = text.find(want, pos)
        check(p == pos, 'printed row: want %r at %d of %r', want, pos, text[max(0, pos - 20):pos + 120])
        pos = p + len(want)
        nxt = text.find('\n', pos)
        got = text[pos:] if nxt < 0 else text[pos:nxt]
        if '\n' not in name and name == name.strip() and '  ' not in name:
            eq(got, name, 'printed name of row %d', index)
        pos = len(text) if nxt < 0 else nxt + 1


def run_part(d, st):
    P = popul.Pop(d['p'])
    h = hp()
    V = h.View
    old = V.root
    names = P.names
    hv = V.hv
    try:
        V.root = P.root
        gc.collect()
        w, inv = P.world()
        M = kinds.Model(w, inv, hv)
        T = P.targets()
        if not T:
            return
        sz = {id(o): hv.indisize_sum([o]) for o in T}
        tot = sum(sz.values())
        X = h.iso(*T)
        for name in d['er']:
            st.label('er ' + (name if isinstance(name, str) else name[0]))
            er = kinds.er_of(h, name)
            key = M.key(name)
            want = {}
            for o in T:
                want.setdefault(key(o), {})[id(o)] = o
            x = X.by(er)
            p = x.partition
            identity = er is h.Id
            eq((p.count, p.size), (len(T), tot), 'count and size by %s', name)
            wantsets = {frozenset(v) for v in want.values()}
            gotsets = []
            cum = 0
            seq = list(p.get_rows())
            last = None
            for i, row in enumerate(seq):
                mem = frozenset(ids(row.set.nodes))
                if mem not in wantsets:
                    raise Violation('by %s: a row has %s, the classes are %s' % (name, names.set(row.set.nodes), [names.set(v.values()) for v in want.values() if set(v) & mem]))
                gotsets.append(mem)
                s = sum(sz[j] for j in mem)
                cum += s
                eq((row.count, row.size, row.cumulsize, row.index), (len(mem), s, cum, i), 'figures of row %d by %s', i, name)
                check(isinstance(row.name, str), 'name of a row: %r', row.name)
                if last is not None:
                    if not (last[0] > s or last[0] == s and (last[1] <= row.name or identity)):
                        raise Violation('by %s: row %d (%d, %r) follows (%d, %r)' % (name, i, s, row.name, last[0], last[1]))
                last = (s, row.name)
            eq(len(set(gotsets)), len(want), 'different rows by %s', name)
            eq(len(seq), len(want), 'number of rows got by %s', name)
            eq(p.numrows, len(want), 'number of rows by %s', name)
            eq(cum, tot, 'sum of the rows')
            st.nontrivial(len(want) >= 3 and any(len(v) >= 2 for v in want.values()))
            n = len(seq)
            # sets of rows
            eq([frozenset(ids(s.nodes)) for s in p], gotsets, 'sets of the partition')
            eq([frozenset(ids(s.nodes)) for s in x.parts], gotsets, 'parts')
            for ix in d['idx']:
                if isinstance(ix, int):
                    if -n <= ix < n:
                        y = x[ix]
                        eq(frozenset(ids(y.nodes)), gotsets[ix], 'row [%d] of %d by %s', ix, n, name)
                        check(y.er is er, 'equivalence relation of a row')
                    else:
                        raises(IndexError, lambda: x[ix])
                else:
                    sl = slice(*ix)
                    y = x[sl]
                    eq(frozenset(ids(y.nodes)), frozenset().union(*gotsets[sl]), 'rows [%s] of %d by %s', ix, n, name)
            # statistic
            s = x.stat
            eq(rows_of(s), [(r.count, r.size, r.name, r.index, r.cumulsize) for r in seq], 'rows of the statistic by %s', name)
            eq((s.count, s.size, len(s)), (len(T), tot, n), 'totals of the statistic')
            # printed
            L = lines_of(h, x, names)
            if not identity:
                eq(L[0], 'Partition of a set of %d object%s. Total size = %d bytes.' % (len(T), 's' * (len(T) != 1), tot), 'label by %s', name)
                if not any('\n' in r.name for r in seq):
                    check_table(L[1:], [(r.count, r.size, r.name, r.index, r.cumulsize) for r in seq], len(T), tot, '')
            else:
                check(L[0].startswith('Set of %d ' % len(T)) and L[0].endswith(' object%s. Total size = %d bytes.' % ('s' * (len(T) != 1), tot)), 'label %r', L[0])
                for i, r in enumerate(seq):
                    a = '%6d %8d %5.1f %9d %5.1f ' % (i, r.size, r.size * 100.0 / tot, r.cumulsize, r.cumulsize * 100.0 / tot)
                    check(any(l.startswith(a) for l in L), 'no line %r', a)
            # a row alone
            i = d['sub'] % n
            y = x[i]
            if not identity:
                q = y.partition
                eq([(r.count, r.size, r.index, r.cumulsize, r.name) for r in q.get_rows()],
                   [(len(gotsets[i]), sum(sz[j] for j in gotsets[i]), 0, sum(sz[j] for j in gotsets[i]), seq[i].name)], 'partition of a row by %s', name)
                eq(frozenset(ids(y[0].nodes)), gotsets[i], 'row of a row')
                raises(IndexError, lambda: y[1])
                eq((y.count, y.size), (len(gotsets[i]), seq[i].size), 'row set')
                eq(lines_of(h, y, names)[0], 'Partition of a set of %d object%s. Total size = %d bytes.' % (y.count, 's' * (y.count != 1), y.size), 'label of a row')
            z = y.bysize if name != 'Size' else y.bytype
            for row in z.partition.get_rows():
                check(ids(row.set.nodes) <= gotsets[i], 'a part of a row by another relation is not in the row')
            eq(sum(row.count for row in z.partition.get_rows()), y.count, 'count of the parts of a row')
    except RecursionError:
        # an exception that is its own argument, and a key of a dictionary, has no repr
        if not any(n[0] == 'exc' for n in d['p']['g']['n']):
            raise
        st.label('no repr')
    finally:
        V.root = old
        P.g.clear()


def gen_ident(r):
    """many objects of few sizes, accessed in a generated order"""
    v = []
    for _ in range(r.randint(1, 4)):
        k = r.pick(['int', 1], ['float', 1], ['ascii', 3], ['tuple', 2], ['attrs', 0], ['complex', 2], ['bytes', 2], ['list', 2], ['mixed', 1], ['same', 0])
        v.append([k[0], k[1], r.randint(1, 30)])
    return {'v': v, 'idx': [gen_idx2(r) for _ in range(r.randint(1, 10))]}


def gen_idx2(r):
    x = r.random()
    if x < 0.4:
        return r.randint(-70, 70)
    return [r.pick(None, r.randint(-70, 70)), r.pick(None, r.randint(-70, 70)), r.pick(None, None, 1, 2, 3, 7)]


def run_ident(d, st):
    h = hp()
    objs = []
    for k, n, m in d['v']:
        for j in range(m):
            if k == 'mixed':
                objs.append([1.5 * j, 'a%d' % j, j + 1000, (j,), complex(j), values.Attrs(), None, b'%d' % j, list, len, values][j % 11])
            elif k == 'same':
                objs.append(popul.same_named(j))
            else:
                objs.append(values.make([k, n + j % 3, j]))
    T = list({id(o): o for o in objs}.values())
    hv = h.View.hv
    sz = {id(o): hv.indisize_sum([o]) for o in T}
    tot = sum(sz.values())
    n = len(T)
    x = h.iso(*T).byid
    rows = {}

    def one(i, s):
        mem = ids(s.nodes)
        eq(len(mem), 1, 'objects in a row by identity')
        j = next(iter(mem))
        check(j in sz, 'a row by identity holds something else')
        if rows.setdefault(i, j) != j:
            raise Violation('row %d by identity holds another object than before' % i)
    for ix in d['idx']:
        if isinstance(ix, int):
            if -n <= ix < n:
                one(ix % n, x[ix])
            else:
                raises(IndexError, lambda: x[ix])
        else:
            y = x[slice(*ix)]
            want = range(n)[slice(*ix)]
            eq(len(y.nodes), len(want), 'number of objects in rows [%s] of %d', ix, n)
            mem = ids(y.nodes)
            for i in want:
                if i in rows:
                    check(rows[i] in mem, 'row %d is missing in rows %s', i, ix)
                else:
                    one(i, x[i])
                    check(rows[i] in mem, 'row %d is missing in rows %s', i, ix)
    p = x.partition
    cum = 0
    for i in range(n):
        row = p.get_row(i)
        one(i, row.set)
        s = sz[rows[i]]
        cum += s
        eq((row.count, row.size, row.cumulsize, row.index), (1, s, cum, i), 'figures of row %d by identity', i)
    eq(len(set(rows.values())), n, 'objects in the rows by identity')
    eq([sz[rows[i]] for i in range(n)], sorted(sz.values(), reverse=True), 'sizes of the rows by identity')
    eq(cum, tot, 'sum of the rows')
    raises(IndexError, p.get_row, n)
    # same size and type: by value
    vals = [next(o for o in T if id(o) == rows[i]) for i in range(n)]
    if len({type(o) for o in T}) == 1 and type(T[0]) in (int, float, str, bytes):
        for a, b in zip(vals, vals[1:]):
            if sz[id(a)] == sz[id(b)]:
                check(a <= b, 'row of %r before row of %r', a, b)
    st.label('n %d' % (n // 10 * 10))
    st.nontrivial(n >= 3 and len(set(sz.values())) < n)


FACETS = {
    'part': (5, gen_part, run_part),
    'ident': (2, gen_ident, run_ident),
}
