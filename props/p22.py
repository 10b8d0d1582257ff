"""P22: reference patterns are faithful trees of referrers."""
import gc
from props.hpy import *
from props import graph, p07, p10, popul, kinds, p15

SPEC = dict(
    id='P22', quick=6000, thorough=250000,
    rule='A case is a population (generated object graph, data objects, same-named classes) below a root, a set of 1 to 4 of its objects, and a pattern over it: depth 0 to 6, an equivalence relation, kinds to stop at, cycles left out '
         'or not, referrers by the default, by immediate dominators, by a given function or from another source. The pattern is first visited in a generated order (row by index, by name, by attribute, iteration, names of no row, '
         'reset) and then read in full (to 150 lines); every line is compared with a tree built from the inverse of the reference relation and a classification by the model. (wide) Objects with 20 to 200 classes of referrers. '
         'Non-trivial: at least 4 lines, with a row at depth 2 or more or a set that is referred to by number (tree), a row beyond the 26th child got by name (wide).',
    assumptions=['children come largest first, those of equal size by name; the order among rows equal in both is unspecified',
                 'names of rows that are also names of attributes of the pattern itself are not used as attributes',
                 'objects that the interpreter itself may change meanwhile (what is reached from builtin classes) are not targets'])


def setup():
    p15.setup()


STOPS = ['default', 'none', 'none', 'none', 'list', 'dict', 'any', 'nothing', 'one', 'two']
MORE = object()


def gen_ops(r):
    ops = []
    for _ in range(r.pick(0, 1, 2, 3, 5, 8)):
        k = r.weighted([(4, 'i'), (4, 'n'), (3, 'a'), (2, 'it'), (2, 'bad'), (1, 'reset'), (1, 'str'), (1, 'row')])
        if k in ('n', 'a'):
            v = [r.weighted([(6, 0), (3, 1), (1, 2), (1, 3)]) for _ in range(r.pick(1, 1, 2, 2, 3, 4))]
        elif k == 'bad':
            v = r.pick('`', '_', 'a_', 'A', 'a`', '__', 'Z', 'zz', 'a99', '`a', '-', 'a-', '1', 'aA', '_a')
        else:
            v = r.pick(0, 1, 2, 3, r.randrange(12), r.randrange(40))
        ops.append([k, v])
    return ops


def gen_tree(r):
    return {'p': popul.gen_pop(r, r.pick(6, 10, 14), 6), 't': [r.randrange(40) for _ in range(r.pick(1, 1, 2, 4) if r.chance(0.98) else 0)], 'depth': r.pick(1, 2, 3, 3, 4, 5, 6, 0),
            'er': r.pick('Clodo', 'Clodo', None, 'Id', 'Type', 'Size', 'Unity', 'Rcs', 'Via', 'Module', 'gen') if r.chance(0.9) else kinds.gen_er(r), 'stop': r.choice(STOPS), 'nocyc': r.chance(0.3),
            'ref': r.weighted([(14, 0), (2, 'imdom'), (1, 'imdom='), (2, 'fun'), (1, 'src')]), 'ops': gen_ops(r), 'w': r.pick(80, 80, 80, 60, 120)}


class Row:
    __slots__ = ('line', 'parent', 'children', 'set', 'ixl', 'depth', 'key')


def ixname(ixl):
    """name of the row reached by these child numbers"""
    s = [chr(97 + i) for i in ixl]
    out = []
    while s:
        n = 1
        while n < len(s) and s[n] == s[0]:
            n += 1
        out.append(s[0] + str(n) if n > 2 else s[0] * n)
        del s[:n]
    return ''.join(out) or '_'


def nameof(kd):
    if kd in (None, 'gen'):
        return 'Clodo'
    return kd


def run_tree(d, st):
    W = p15.World(d['p'])
    h = W.h
    RP = h._parent.RefPat
    oldw = RP.line_length
    try:
        amb = popul.ambient()
        inv = W.P.inv
        T = [t for t in W.T if id(t) not in amb and not any(map(popul.is_subclass_dict, inv.get(id(t), {}).values()))]
        T = [T[i % len(T)] for i in d['t']] if T else []
        T = list({id(t): t for t in T}.values())
        if not T and d['t']:
            return
        st.label('empty', not T)
        RP.line_length = max(60, min(d['w'], 200))
        tree(W, h, T, d, st)
    finally:
        RP.line_length = oldw
        W.close()


def mkpattern(W, h, T, d, st):
    M = W.M
    X = h.iso(*T)
    kw = {'depth': max(0, min(d['depth'], 8))}
    ername = nameof(d['er'])
    if d['er'] is not None:
        kw['er'] = kinds.er_of(h, ername)
    stop = d['stop']
    ref = d['ref']
    if ref == 'src':
        kw.pop('er', None)
        ername = 'Clodo'
        stop = 'none'
    key = M.key(ername)
    types_ = types.ModuleType, type
    if stop == 'default':
        def stopped(o):
            t = type(o)
            if t is dict:
                w = M.owner(o)
                return w is not None and type(w) in types_
            return t in (types.ModuleType, type, types.CodeType, types.FrameType)
    else:
        if stop in ('list', 'dict'):
            t = {'list': list, 'dict': dict}[stop]
            kw['stopkind'] = h.Type(t)
            stopped = lambda o: type(o) is t
        elif stop == 'any':
            kw['stopkind'] = h.Anything
            stopped = lambda o: True
        elif stop in ('one', 'two'):
            l = [o for o in W.P.g.nodes][:2 if stop == 'two' else 1]
            kw['stopkind'] = h.iso(*l)
            s = ids(l)
            stopped = lambda o: id(o) in s
        else:
            kw['stopkind'] = h.Nothing
            stopped = lambda o: False
    if d['nocyc']:
        kw['nocyc'] = True
    inv = W.P.inv

    def image(objs):
        out = {}
        for o in objs:
            out.update(inv.get(id(o), {}))
        out.pop(id(None), None)
        return out
    if ref in ('imdom', 'imdom='):
        if ref == 'imdom':
            kw['imdom'] = 1
        else:
            kw['ref'] = 'imdom'
        image = lambda objs: {id(o): o for o in h.iso(*objs).imdom.nodes}
    elif ref == 'fun':
        # what is referred to, among the nodes
        ns = {id(o): o for o in W.P.g.nodes if id(o) in W.w and id(o) not in popul.ambient()}
        kw['ref'] = lambda s: h.idset(V_im(h, image(s.nodes).values()))

        def image(objs):
            out = {}
            for o in objs:
                for x in W.P.ref(o):
                    if id(x) in ns:
                        out[id(x)] = x
            return out
    elif ref == 'src':
        kw['src'] = h.idset(V_im(h, W.P.root))
    rp = X.get_rp(**kw)
    if ref == 'src':
        root = rp.View.root
        if ids(root) != ids(W.P.root):
            raise Violation('pattern from a source starts at %r' % (root,))
        w = graph.closure([root], W.P.ref)
        inv2 = p10.inverse(w, W.P.ref)
        M.inv = inv2
        W.names[id(root)] = 'root'

        def image(objs):
            out = {}
            for o in objs:
                out.update(inv2.get(id(o), {}))
            return out
    return rp, key, image, stopped, kw['depth'], ername


def V_im(h, it):
    return h.View.immnodeset(it)


def pull(rp, n):
    """at most n lines"""
    out = []
    for l in rp.iterlines():
        out.append(l)
        if len(out) >= n:
            break
    return out


def tree(W, h, T, d, st):
    names = W.names
    rp, key, image, stopped, depth, ername = mkpattern(W, h, T, d, st)
    st.label('ref %s' % d['ref'])
    width = rp.mod.line_length
    recs = visit(rp, d, 150, st)
    lines = pull(rp, 150)
    complete = len(lines) < 150

    # --- the tree
    pos = 0
    seen = {}
    rows = []
    refs = 0

    class Enough(Exception):
        pass

    def node(parent, ixl, cands, anc, prev):
        nonlocal pos, refs
        if pos >= len(lines):
            if complete:
                raise Violation('the pattern ends at line %d; row %s is missing: %s' % (pos, ixname(ixl), [names.set(c.values()) for c in cands.values()]))
            raise Enough
        line = lines[pos]
        what = 'row %d (%s)' % (pos, ixname(ixl))
        objs = {id(o): o for o in line.set.nodes}
        s = frozenset(objs)
        if s not in cands:
            raise Violation('%s has %s; the classes are %s' % (what, names.set(objs.values()), [names.set(c.values()) for c in cands.values()]))
        del cands[s]
        eq(line.index, pos, 'index of %s', what)
        eq(line.ixlstr, ixname(ixl), 'name of %s', what)
        eq(line.depth, len(ixl), 'depth of %s', what)
        check(line.parent is parent, 'parent of %s is %s', what, line.parent)
        size = W.h.View.hv.indisize_sum(list(objs.values()))
        eq((line.set.count, line.set.size), (len(objs), size), 'count and size of %s', what)
        check(line.set <= line.kind, '%s is not of its kind', what)
        part = list(line.set.by(rp.er).partition.get_rows())
        if ixl:
            eq(len(part), 1, 'number of classes in %s', what)
            name = part[0].name
        else:
            name = None
        if prev is not None:
            if not (prev[0] > size or prev[0] == size and (name is None or prev[1] <= name or ername in ('Id', 'Idset'))):
                raise Violation('%s (%d, %r) follows (%d, %r)' % (what, size, name, prev[0], prev[1]))
        pos += 1
        first = seen.get(s)
        ch = image(list(objs.values()))
        if d['nocyc']:
            for a in anc + [s]:
                for i in a:
                    ch.pop(i, None)
        cl = {}
        for i, o in ch.items():
            cl.setdefault(key(o), {})[i] = o
        stop = bool(ixl) and all(map(stopped, objs.values()))
        if first is not None:
            mark = '[^ %d]' % first
            refs += 1
            st.label('seen')
        elif not cl:
            mark = '[R]'
        elif stop:
            mark = '[S]'
            st.label('stop')
        elif len(ixl) < depth:
            mark = '[-]'
        else:
            mark = '[+]'
            st.label('limit')
        text = str(line)
        pre = '%2d: %s ' % (pos - 1, ixname(ixl))
        pre += (' -'[pos % 2] * 200)[:max(0, 9 + len(ixl) - len(pre))]
        pre += ' ' + mark + ' '
        cnt = '%d ' % len(objs)
        if not (text.startswith(pre + cnt)):
            raise Violation('%s is printed %r, want %r' % (what, text, pre + cnt))
        if len(pre) < width - 12:
            check(len(text) <= width, '%s is printed with %d characters: %r', what, len(text), text)
        if name and ername in ('Clodo', 'Type', 'Size'):
            if ername == 'Size':
                name = '<size = %s>' % name.strip()
            tail = text[len(pre) + len(cnt):]
            w = name + ': '
            if not (tail.startswith(w) or tail.endswith('...') and w.startswith(tail[:-3])):
                raise Violation('%s of class %r is printed %r' % (what, name, text))
        if first is None:
            seen[s] = pos - 1
        R = Row()
        R.line, R.parent, R.children, R.set, R.ixl, R.depth = line, parent, [], s, tuple(ixl), len(ixl)
        rows.append(R)
        if first is None and len(ixl) < depth and not stop and cl:
            cands = {frozenset(c): c for c in cl.values()}
            p = None
            for i in range(len(cands)):
                q = node(line, ixl + [i], cands, anc + [s], p)
                R.children.append(q)
                r = q.line
                p = (r.set.size, list(r.set.by(rp.er).partition.get_rows())[0].name)
        return R
    try:
        root = node(None, [], {frozenset(ids(T)): {id(t): t for t in T}}, [], None)
        if pos != len(lines):
            raise Violation('%d lines after the end of the tree, first %s' % (len(lines) - pos, lines[pos]))
        total = len(rows)
    except Enough:
        total = None
        st.label('cut')
    if total is not None:
        eq(len(rp), total, 'number of rows')
    compare(rp, recs, rows, total, names, st)
    st.nontrivial(len(rows) >= 4 and (refs > 0 or any(r.depth >= 2 for r in rows)))


def visit(rp, d, cap, st):
    """visit in some order; what was got"""
    recs = []
    own = set(dir(rp)) | set(rp.__dict__)
    for op, v in d['ops']:
        st.label('op ' + op)
        try:
            if op == 'i':
                key = ('ix', v)
                got = rp[v]
            elif op == 'row':
                key = ('ix', v)
                got = rp.get_row(v).set
            elif op in ('n', 'a'):
                n = ixname(v)
                key = ('name', tuple(v))
                if op == 'a' and n not in own:
                    got = getattr(rp, n)
                else:
                    got = rp.get_row(n).set
            elif op == 'bad':
                key = ('bad', v)
                if v in own or v == '_':
                    key = ('name', ())
                    got = rp.get_row('_').set
                else:
                    got = rp.get_row(v).set
            elif op == 'it':
                it = iter(rp)
                for i, s in enumerate(it):
                    recs.append((('ix', i), s))
                    if i >= v:
                        break
                continue
            elif op == 'str':
                str(rp)
                continue
            else:
                rp.reset()
                continue
        except IndexError:
            check(op in ('i', 'row'), '%s %r: IndexError', op, v)
            got = None
        except AttributeError:
            check(op == 'a', '%s %r: AttributeError', op, v)
            got = None
        except ValueError:
            check(op in ('n', 'bad') or op == 'a' and ixname(v) in own, '%s %r: ValueError', op, v)
            got = None
        recs.append((key, got))
    return recs


def compare(rp, recs, rows, total, names, st):
    byname = {r.ixl: r for r in rows}
    for key, got in recs:
        k, v = key
        if k == 'ix':
            if v >= len(rows) and total is None:
                continue
            want = rows[v] if v < len(rows) else None
        elif k == 'name':
            want = byname.get(v)
            if want is None and total is None:
                continue
        else:
            # a name of no row, or of one by chance
            want = None
            if v in ('zz', 'a99'):
                continue
        if want is None:
            if got is not None:
                raise Violation('there is no row %s, but it was got as %s' % (key, names.set(got.nodes)))
            continue
        if got is None:
            raise Violation('row %s was not found, it is row %s' % (key, want.line))
        if frozenset(ids(got.nodes)) != want.set:
            raise Violation('row %s is %s, want that of %s' % (key, names.set(got.nodes), want.line))
    for r in rows[::max(1, len(rows) // 8)]:
        eq(frozenset(ids(rp.get_row(r.line.ixlstr).set.nodes)), r.set, 'row %s by name', r.line.ixlstr)
    if total is not None:
        for i in (0, total // 2, total - 1):
            eq(frozenset(ids(rp[i].nodes)), rows[i].set, 'row [%d]', i)
            eq(frozenset(ids(rp[i - total].nodes)), rows[i].set, 'row [%d]', i - total)
        for i in (total, total + 3, -total - 1):
            raises(IndexError, lambda: rp[i])
        eq([frozenset(ids(s.nodes)) for s in rp], [r.set for r in rows], 'iteration')


def gen_wide(r):
    return {'n': r.pick(20, 27, 40, 83, 84, 86, 100, 130, 200), 'k': [r.randrange(1000) for _ in range(8)], 'nest': r.randrange(3), 'lead': r.pick(0, 1, 2), 'depth': r.pick(1, 2), 'ops': [[r.pick('n', 'a'), r.randrange(200)] for _ in range(r.randint(0, 6))]}


def run_wide(d, st):
    """one object with many referrers of different classes"""
    h = hp()
    t = x0 = ['target']
    lead = max(0, min(d['lead'], 3))
    for _ in range(lead):
        x0 = [x0]
    n = max(1, min(d['n'], 250))
    srcs = []
    for i in range(n):
        x = [x0] + [None] * (i + 1)
        srcs.append(x)
    tops = [[srcs[k % n]] + [0] * (j * 2) for j, k in enumerate(d['k'])] * (1 if d['nest'] else 0)
    root = [srcs, tops]
    old = h.View.root
    try:
        h.View.root = root
        gc.collect()
        rp = h.iso(t).get_rp(depth=lead + max(1, min(d['depth'], 3)), er=h.Id, stopkind=h.Nothing)
        want = sorted(srcs, key=len, reverse=True)
        w = [s for s in want]
        far = 0
        for op, k in d['ops']:
            k %= n
            name = ixname([0] * lead + [k])
            if op == 'a' and not hasattr(type(rp), name) and name not in rp.__dict__:
                got = getattr(rp, name, None)
            else:
                got = rp.get_row(name).set
            if got is None or ids(got.nodes) != {id(want[k])}:
                raise Violation('child %d by name %r is %s, want the list of length %d' % (k, name, got, len(want[k])))
            far += k > 25
        lines = list(rp.iterlines())
        for i, l in enumerate(lines):
            if not l.seenline and l.parent is not None:
                eq(rp.get_row(l.ixlstr).index, i, 'row %r', l.ixlstr)
        first = [l for l in lines if l.depth == lead + 1]
        eq([ids(l.set.nodes) for l in first], [{id(s)} for s in want], 'children')
        for k in d['k']:
            k %= n
            r = rp.get_row(ixname([0] * lead + [k]))
            check(r is first[k], 'row of child %d is %s', k, r)
            far += k > 25
        st.nontrivial(far > 0)
    finally:
        h.View.root = old


FACETS = {
    'tree': (12, gen_tree, run_tree),
    'wide': (1, gen_wide, run_wide),
}
