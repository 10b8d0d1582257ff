"""P18: paged output."""
import gc
from props.hpy import *
from props import graph, p07, p10
from guppy.heapy.UniSet import IdentitySet

SPEC = dict(
    id='P18', quick=10000, thorough=300000,
    rule='A case is something that is printed in pages (a client of the printing module with generated lines, stops and page size; statistics, sets and partitions by several relations, of 0 to 120 rows; shortest paths; reference '
         'patterns and their paths, of a generated graph) and 1 to 12 commands more, all, prev, top and printing, on any of the pages so far, with changes of the page size where that is offered. Every text is compared with '
         'the page that a model computes from all the rows. Non-trivial: at least 2 pages are needed and one of them is printed by more.',
    assumptions=['the texts of the rows are those of an independent format (tables), of another object made of the same things (patterns), or of the single paths',
                 'white space is not compared, since rows are wrapped'])


def setup():
    gc.disable()
    graph.strip_modules()
    p07.setup()


def gen_n(r):
    m = r.pick(10, 10, 20, 30)
    return r.pick(0, 1, 2, 9, 10, 11, 12, 13, m - 1, m, m + 1, m + 2, r.randrange(40), 100)


def gen_cmds(r):
    return [r.weighted([(5, ['more', r.randrange(9)]), (2, ['all', r.randrange(9)]), (2, ['prev', r.randrange(9)]), (1, ['top', r.randrange(9)]), (3, ['str', r.randrange(9)]),
                        (1, ['max', r.pick(1, 2, 3, 5, 10, 11, 1000)])]) for _ in range(r.randint(1, 12))]


def squeeze(s):
    return ''.join(s.split())


class Fmt:
    """What is known of a client: rows, label, header, messages"""
    label = header = empty = None
    stops = None
    strict = False

    def __init__(self, rows, m, msg, **kw):
        self.rows, self.m, self.msg = rows, m, msg
        for k, v in kw.items():
            setattr(self, k, v)

    def page(self, start, m):
        """-> end of the page that starts at start"""
        n = len(self.rows)
        if m is None:
            return n
        end = min(n, start + m)
        if self.stops is not None:
            while end < n and not self.stops[end - 1]:
                end += 1
        if end == n - 1:
            end = n
        return end

    def text(self, start, end, top):
        L = []
        if top and self.label is not None:
            L.append(self.label)
        if start == len(self.rows):
            L.append(self.empty)
        else:
            L.append(self.header)
            L += self.rows[start:end]
        return [x for x in L if x is not None]


class Node:
    def __init__(self, x, kind, prev):
        self.x, self.kind, self.prev, self.next = x, kind, prev, None


def walk(x, f, cmds, st, setmax=None):
    top = Node(x, 'top', None)
    nodes = [top]
    n = len(f.rows)

    def start_of(node):
        if node.kind != 'more':
            return 0
        p = node.prev
        if p.next is None:
            p.next = f.page(start_of(p), f.m)
        return p.next

    def show(node):
        start = start_of(node)
        end = f.page(start, None if node.kind == 'all' else f.m)
        node.next = end
        got = str(node.x)
        want = f.text(start, end, node.kind != 'more')
        if end < n:
            msgs = f.msg(start, end)
            msgs = [msgs] if isinstance(msgs, str) else msgs
        else:
            msgs = ['']
        a = squeeze(got)
        ok = [squeeze('\n'.join(want + [m])) for m in msgs]
        if a not in ok:
            raise Violation('%s at row %d of %d with pages of %d prints %r, want %r' % (node.kind, start, n, f.m, got[-700:], '\n'.join(want + msgs)[-700:]))
        if f.strict:
            b = '\n'.join(want + ([msgs[0]] if msgs[0] else [])).rstrip()
            if len(msgs) == 1:
                eq(got, b, 'text of %s at row %d of %d', node.kind, start, n)
        if len(msgs) > 1:
            st.label('message')
        eq(repr(node.x), got, 'repr of the page, after its str')

    show(top)
    used = False
    for c in cmds:
        if c[0] == 'max':
            if setmax:
                setmax(max(1, c[1]))
                f.m = max(1, c[1])
            continue
        node = nodes[c[1] % len(nodes)] if c[1] < 6 else nodes[-1]
        st.label(c[0])
        if c[0] == 'more':
            if node.kind == 'all':
                continue
            m = node.x.more
            # the first continuation may always be the same object
            new = next((k for k in nodes if k.x is m), None)
            if new is None:
                new = Node(m, 'more', node)
                nodes.append(new)
            show(new)
            used = True
        elif c[0] == 'all':
            new = Node(node.x.all, 'all', node)
            nodes.append(new)
            show(new)
        elif c[0] == 'prev':
            if node.kind != 'more':
                continue
            p = node.x.prev
            node.prev = Node(p, node.prev.kind, node.prev.prev) if False else node.prev
            old, node.prev.x = node.prev.x, p
            show(node.prev)
            node.prev.x = old
        elif c[0] == 'top':
            if node.kind == 'top':
                continue
            t = node.x.top
            check(t is x, 'top of a page is another object')
            show(top)
        else:
            show(node)
    st.nontrivial(n > f.m + 1 and used)
    st.label('rows %s' % ('0' if not n else '<=11' if n < 12 else '<=22' if n < 23 else '>22'))


# ---- a plain client ---------------------------------------------------------

def gen_raw(r):
    n = gen_n(r)
    return {'n': n, 'm': r.pick(None, 1, 2, 3, 4, 9, 10, 11, 50), 'st': [int(r.chance(0.3)) for _ in range(n)] if r.chance(0.4) else None, 'told': int(r.chance(0.5)),
            'o': [r.randrange(2) for _ in range(6)], 'c': gen_cmds(r), 'txt': r.randrange(4)}


class Client:
    pass


def run_raw(d, st):
    h = hp()
    oh = h._parent.OutputHandling
    x = Client()
    x.mod = oh
    n = d['n']
    # with spaces so that rows are told apart, and lines that look like messages
    rows = [('row <%d>', '%d', '<%d more rows>', "%d: a b  c.")[d['txt']] % i for i in range(n)]
    stops = d['st'] and d['st'] + []
    num, lab, hdr, mm, ms, em = d['o']

    def lines():
        for i, t in enumerate(rows):
            yield ('STOP_AFTER', t) if stops and stops[i] else t
    kw = {}
    if num:
        kw['get_num_lines'] = lambda: n
    if lab:
        kw['get_label'] = lambda: 'The label'
    if hdr:
        kw['get_row_header'] = lambda: 'Header'
    if mm:
        kw['get_more_msg'] = lambda a, b: '<rows %d to %d shown>' % (a, b)
    elif ms:
        kw['get_more_state_msg'] = lambda a, b: 'At %d after %d. ' % (b, a)
    if em:
        kw['get_empty_msg'] = lambda: '<nothing>'
    told = d['told'] and bool(stops)
    oh.setup_printing(x, None, get_line_iter=lines, max_more_lines=d['m'], stop_only_when_told=told, **kw)

    def msg(start, end):
        if mm:
            return '<rows %d to %d shown>' % (start, end - 1)
        s = 'At %d after %d. ' % (end - 1, start) if ms else 'Lines %d..%d%s. ' % (start, end - 1, ' of %d' % n if num else '')
        return "<%sType e.g. '_.more' for more.>" % s
    f = Fmt(rows, d['m'] or 10, msg, label='The label' if lab else None, header='Header' if hdr else None, empty='<nothing>' if em else None, stops=stops if told else None, strict=True)
    walk(x, f, d['c'], st)


# ---- tables -----------------------------------------------------------------

def gen_table(r):
    return {'n': gen_n(r), 'k': r.pick('stat', 'stat', 'diff', 'idstat', 'iso', 'part', 'size', 'sizestat', 'row'), 'c': gen_cmds(r), 's': r.randrange(50), 'w': r.pick(100, 100, 40, 60), 'm': r.pick(10, 10, 10, 1, 2, 7, 25)}


def pct(a, b):
    return '%d' % int('%.0f' % (a * 100.0 / b))


class Seq:
    pass


def run_table(d, st):
    h = hp()
    n, k = d['n'], d['k']
    OH, Part = h._parent.OutputHandling, h._parent.Part
    oldm, oldw = OH.max_more_lines, Part.line_length
    try:
        OH.max_more_lines = max(1, d['m'])
        Part.line_length = max(40, d['w'])
        x, f = table(h, n, k, d['s'])
        if f is None:
            return
        f.m = max(1, d['m'])
        walk(x, f, d['c'], st)
        st.label(k)
    finally:
        OH.max_more_lines = oldm
        Part.line_length = oldw


def table(h, n, k, s):
    head3 = 'Index Count % Size % Cumulative % '
    head2 = 'Index Size % Cumulative % '

    def msg(start, end):
        return "<%d more rows. Type e.g. '_.more' to view.>" % (n - end)
    if k in ('stat', 'idstat', 'diff'):
        rows = [(1 if k == 'idstat' else (i * 7 + s) % 5 + 1, (i * 13 + s) % 90 + 1, 'kind %d of %d' % (i, n)) for i in range(n)]
        if k == 'diff':
            rows = [(c - 3, z - 40, m) for c, z, m in rows]
        c, z = sum(r[0] for r in rows), sum(r[1] for r in rows)
        L = ['.loader: _load_stat', '.format: %s' % {'stat': 'SetFormat', 'idstat': 'IdFormat', 'diff': 'DiffFormat'}[k], '.timemade: 12.5', '.count: %d' % c, '.size: %d' % z,
             '.kindname: int', '.kindheader: Kind of', '.numrows: %d' % n]
        if k == 'diff':
            L += ['.b_count: %d' % (s % 3), '.b_size: %d' % s]
        L += ['.r: %d %s' % r[1:] if k == 'idstat' else '.r: %d %d %s' % r for r in rows]
        x = h.load(L)
        kindheader, kindname = 'Kind of', 'int'
    else:
        if k in ('iso', 'part', 'row'):
            objs = [('x%d' % i) * 3 + 'y' * (i % 3 if s % 2 else 0) for i in range(n)]
            want = sorted([(sys.getsizeof(o), o) for o in objs], key=lambda a: (-a[0], a[1]))
            rows = [(1, z, repr(o)) for z, o in want]
            X = h.iso(*objs)
            x = X.byid if k != 'part' else X.byid.partition
            kindheader, kindname = 'Value', "<class 'str'>"
            if n:
                kindname = 'str'
            if k == 'row':
                # of kinds by class there is one, and its rows by identity are the same
                x = X.byclodo[0].byid if n else x
        else:
            objs = [bytes(i * (s % 3 + 1) + j) for i in range(n) for j in ([0, 0] if (i + s) % 4 == 0 else [0])]
            objs = [b'x' * len(o) + b'' for o in objs]
            objs = list({id(o): o for o in objs}.values())
            cnt = {}
            for o in objs:
                z = sys.getsizeof(o)
                cnt[z] = cnt.get(z, 0) + 1
            want = sorted(((c * z, z, c) for z, c in cnt.items()), key=lambda a: (-a[0], a[1]))
            n = len(want)
            rows = [(c, t, str(z)) for t, z, c in want]
            X = h.iso(*objs).bysize
            x = X.stat if k == 'sizestat' else X
            kindheader, kindname = 'Individual Size', ''
        q = x.partition if isinstance(x, IdentitySet) else x
        kindheader, kindname = q.kindheader, q.kindname
        c, z = sum(r[0] for r in rows), sum(r[1] for r in rows)
        if not n:
            # the empty set has its own form
            return None, None
    texts = []
    cum = 0
    for i, (rc, rz, m) in enumerate(rows):
        cum += rz
        if k in ('idstat', 'iso', 'part', 'row'):
            texts.append('%d %d %.1f %d %.1f %s' % (i, rz, rz * 100.0 / z, cum, cum * 100.0 / z, m))
        elif k == 'diff':
            texts.append('%d %d %d %d %s %s' % (i, rc, rz, cum, '%.3g' % (cum * 100.0 / s) if s else '(n.a.)', m))
        else:
            texts.append('%d %d %s %d %s %d %s %s' % (i, rc, pct(rc, c), rz, pct(rz, z), cum, pct(cum, z), m))
    p = '' if c == 1 else 's'
    if k in ('idstat', 'iso', 'part', 'row'):
        label = 'Set of %d %s object%s. Total size = %d bytes.' % (c, kindname, p, z)
        header = head2 + kindheader
    elif k == 'diff':
        label = 'Summary of difference operation (A-B). Count Size A %d %d B %d %d A-B %d %d = %s %% of B' % (c + s % 3, z + s, s % 3, s, c, z, '%.3g' % (z * 100.0 / s) if s else '(n.a.)')
        if c or z:
            label += ' Differences by kind, largest absolute size diffs first.'
        header = 'Index Count Size Cumulative % of B ' + kindheader if c or z else None
    else:
        label = 'Partition of a set of %d object%s. Total size = %d bytes.' % (c, p, z)
        header = head3 + kindheader
    return x, Fmt(texts, 10, msg, label=label, header=header)


# ---- paths ------------------------------------------------------------------

def gen_paths(r):
    return {'k': [r.pick(1, 1, 2, 3, 4, 6) for _ in range(r.randint(1, 3))], 'src': r.pick(1, 1, 2, 3), 'c': gen_cmds(r), 'len': r.randrange(2), 'avoid': r.chance(0.2)}


def run_paths(d, st):
    h = hp()
    dst = ['the target']
    layer = [dst]
    for i, k in enumerate(d['k']):
        layer = [[layer[0]] * (k if len(layer) == 1 else 1) if len(layer) == 1 else list(layer) for _ in range(d['len'] + 1)]
    srcs = [[layer] for _ in range(d['src'])]
    root = [srcs]
    old = h.View.root
    try:
        h.View.root = root
        mk = lambda: h.iso(dst).get_shpaths(h.iso(*srcs))
        p, q = mk(), mk()
        rows = [i._get_line_iter() if False else str(i) for i in q]
        n = len(rows)
        eq(p.numpaths, n, 'number of paths')
        lines = ['%d: %s' % (i, t if False else path.stra(src=path.srcname)) for i, (t, path) in enumerate(zip(rows, q))]
        check(len(set(lines)) == n, 'a path comes twice')

        def msg(start, end):
            return '<... %d more paths ...>' % (n - end)

        def setmax(m):
            p.maxpaths = m
        f = Fmt(lines, 10, msg, empty='<No more paths>' if n else None)
        walk(p, f, d['c'], st, setmax)
    finally:
        h.View.root = old


# ---- reference patterns -----------------------------------------------------

def gen_rp(r):
    return {'g': p07.gen_g(r, 2, 12), 't': [r.randrange(20) for _ in range(r.pick(1, 1, 2))], 'depth': r.pick(1, 2, 3, 7), 'paths': r.pick(0, 0, 1, 2), 'row': r.randrange(30), 'variant': r.pick(2, 2, 1), 'c': gen_cmds(r),
            'm': r.pick(10, 3, 2, 1, 5), 'er': r.pick('Clodo', 'Clodo', 'Clodo', 'Id', 'Rcs', 'Size', 'Module', 'Unity', 'Type', 'Via')}


def run_rp(d, st):
    h = hp()
    g = p07.build(d['g'])
    V = h.View
    old = V.root
    OH = h._parent.OutputHandling
    oldm = OH.max_more_lines
    try:
        V.root = [g.nodes]
        gc.collect()
        T = [g.nodes[i % len(g.nodes)] for i in d['t']]
        X = h.iso(*T)
        OH.max_more_lines = max(1, d['m'])
        mk = lambda: X.get_rp(depth=d['depth'], er=getattr(h, d['er']))
        rp, rp2 = mk(), mk()
        lines = [str(x) for x in rp2.iterlines()]
        if len(lines) > 300:
            return
        for i, t in enumerate(lines):
            check(t.startswith('%2d: ' % i), 'line %d is %r', i, t)
        eq(len(rp2), len(lines), 'number of lines')
        kw = {}
        if d['paths'] and len(lines) < 40:
            key = d['row'] % len(lines)
            mkp = lambda r: r.paths(key, variant=d['variant'])
            a, b = mkp(rp), mkp(rp2)
            raw = []
            for t in b._oh_get_line_iter():
                raw.append(t)
                if len(raw) > 400:
                    return
            stops = [isinstance(t, tuple) for t in raw]
            texts = [t[1] if isinstance(t, tuple) else t for t in raw]
            if d['variant'] == 2:
                for i, t in enumerate(texts):
                    check(t.startswith('%2s: ' % i), 'line %d of the paths is %r', i, t)
                kw['stops'] = stops
            f = Fmt(texts, OH.max_more_lines, lambda s, e: "<Type e.g. '_.more' for more.>", label='Paths from source %r to target %r.' % (rp2.get_row(key).ixlstr, '_'), **kw)
            x = a
            st.label('paths %d' % d['variant'])
        else:
            n = len(lines)

            def msg(start, end):
                return ["<Type e.g. '_.more' for more.>", "<%d more lines. Type e.g. '_.more' for more.>" % (n - end)]
            f = Fmt(lines, OH.max_more_lines, msg, label='Reference Pattern by <%s>.' % {'Clodo': '[dict of] class', 'Id': 'identity', 'Rcs': '[dict of] class of referrers', 'Size': 'individual size'}[d['er']]
                    if d['er'] in ('Clodo',) else str(rp2).split('\n')[0])
            x = rp
            st.label('rp')
        walk(x, f, d['c'], st)
    finally:
        OH.max_more_lines = oldm
        V.root = old


FACETS = {
    'raw': (3, gen_raw, run_raw),
    'table': (4, gen_table, run_table),
    'paths': (1, gen_paths, run_paths),
    'rp': (3, gen_rp, run_rp),
}
