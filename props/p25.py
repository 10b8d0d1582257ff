"""P25: dotted-tree text round-trips every tree."""
import os
import tempfile
import guppy
from pbt.core import Violation, check, eq, raises

SPEC = dict(
    id='P25', quick=60000, thorough=1500000,
    rule='(tree) A case is a tree of up to 40 nodes (or a path of up to 300), of one of the two node types, whose tags are strings over quote characters, dots, newlines, blanks and other characters, the empty one included, and a tree character. '
         'Written out, the text parses (as a string, as lines, as a file) to the same tree, and the text is that of a reference writer. (text) A case is a text of lines over the same characters: a reference parser decides whether it is well formed; '
         'if so its tree, with the line number of every node, is that of the parser, and writing it gives back the text up to outer blank space; if not, an error is raised, or reported for that line to the source given. '
         'Non-trivial: the tree has a child and a tag with a tree or quote character at the start of a line, or the text is refused.',
    assumptions=['the tree character is one character other than the quote character, a newline or a blank', 'nesting is bounded by the recursion limit of the interpreter (300 levels are generated)'])

Q = '\\'


def dt():
    return guppy.Root().guppy.gsl.DottedTree


def gen_tag(r, dot):
    k = r.randrange(10)
    if k == 0:
        return ''
    if k == 1:
        return '\n' * r.randint(1, 3)
    if k < 5:
        return '\n'.join(r.pick('', Q, Q * 2, Q * 3, Q * 4, ' ') + r.pick(dot, dot, '', 'a', dot + dot) + r.pick('', 'x', Q, dot, ' ', '\t', '\r') for _ in range(r.randint(1, 3)))
    return ''.join(r.choice([Q, Q, dot, dot, '\n', ' ', 'a', '.', '\u2028', '\r', '\x0b', '\u00e9', '\0', '*', '[', '\x85']) for _ in range(r.randint(1, 8)))


def gen_dot(r):
    return r.weighted([(6, '.'), (1, '*'), (1, '~'), (.5, 'a'), (.5, '\u00e9'), (.5, '['), (.5, '\0'), (.3, '/')])


def gen_tree(r, dot, n):
    """nested lists [tag, child...] of about n nodes"""
    root = [gen_tag(r, dot)]
    nodes = [root]
    path = r.chance(.1)
    if path:
        n = r.pick(n, 100, 300)
    for _ in range(n - 1):
        p = nodes[-1] if path else r.choice(nodes)
        c = [gen_tag(r, dot)]
        p.append(c)
        nodes.append(c)
    return root


def flatten(t):
    """[[depth, tag], ...] in preorder (so that no deep nesting is in the case)"""
    out = []
    st = [(0, t)]
    while st:
        d, x = st.pop()
        out.append([d, x[0]])
        st.extend((d + 1, c) for c in reversed(x[1:]))
    return out


def gen_t(r):
    dot = gen_dot(r)
    return {'dot': dot, 'n': r.pick('sexpr', 'node'), 't': flatten(gen_tree(r, dot, r.pick(1, 2, 3, 5, 10, 40))), 'how': r.pick('string', 'lines', 'file', 'twice')}


def gen_x(r):
    dot = gen_dot(r)
    lines = []
    d = 0
    for _ in range(r.pick(1, 2, 4, 8, 20)):
        k = r.randrange(12)
        if k < 7:
            d = r.randint(0 if not lines else 1, d + 1) if r.chance(.95) else d + 2
            lines.append(dot * d + r.pick('', 'a', Q + dot, Q, Q + Q + dot, Q * 3 + dot, ' ', ' b', Q + 'a', gen_tag(r, dot).replace('\n', '') if r.chance(.3) else 'c'))
        else:
            lines.append(gen_tag(r, dot).replace('\n', r.pick('', '\n')))
    return {'dot': dot, 'n': r.pick('sexpr', 'node'), 'x': '\n'.join(lines), 'src': r.chance(.3)}


# ---------------------------------------------------------------- reference

def quote(t, dot):
    out = []
    for l in t.split('\n'):
        i = 0
        while i < len(l) and l[i] == Q:
            i += 1
        out.append(Q + l if l[i:i + 1] == dot else l)
    return '\n'.join(out)


def write(flat, dot):
    out = []
    for i, (d, t) in enumerate(flat):
        if i == 0 and t == '' and len(flat) > 1:
            continue
        out.append(dot * d + quote(t, dot))
    return '\n'.join(out)


def parse(text, dot):
    """(flat, line numbers) or (None, line of the error)"""
    nodes = [[0, [], 0]]
    for i, l in enumerate(text.split('\n') if text else []):
        n = 0
        while n < len(l) and l[n] == dot:
            n += 1
        if n:
            if n > nodes[-1][0] + 1:
                return None, i
            nodes.append([n, [], i])
            l = l[n:]
        k = 0
        while k < len(l) and l[k] == Q:
            k += 1
        if k and l[k:k + 1] == dot:
            l = l[1:]
        nodes[-1][1].append(l)
    flat = [[d, '\n' if i == 0 and t == [''] else '\n'.join(t)] for i, (d, t, _) in enumerate(nodes)]
    return flat, [n[2] for n in nodes]


def build(D, flat, kind):
    """the tree in the format of the library"""
    st = []
    root = None
    for d, t in flat:
        while len(st) > d:
            st.pop()
        n = [t, []]
        if st:
            st[-1][1].append(n)
        else:
            root = n
        st.append(n)

    def conv(n):
        c = [conv(x) for x in n[1]]
        return (n[0],) + tuple(c) if kind == 'sexpr' else D.node_node(n[0], tuple(c), 0)
    return conv(root)


def flat_of(t, kind):
    out = []
    idx = []
    st = [(0, t)]
    while st:
        d, n = st.pop()
        if kind == 'sexpr':
            check(type(n) is tuple, 'node of type %s', type(n).__name__)
            tag, ch, i = n[0], n[1:], None
        else:
            tag, ch, i = n.tag, n.children, n.index
        out.append([d, tag])
        idx.append(i)
        st.extend((d + 1, c) for c in reversed(ch))
    return out, idx


class Using:
    def __init__(self, dot, kind):
        self.a = dot, kind

    def __enter__(self):
        D = dt()
        self.D = D
        self.old = D.dotchar, D.node
        D.dotchar = self.a[0]
        D.node = D.node_sexpr if self.a[1] == 'sexpr' else D.node_node
        return D

    def __exit__(self, *a):
        self.D.dotchar, self.D.node = self.old


class Src:
    def __init__(self):
        self.l = []

    def error(self, msg, context=None, *a, **k):
        self.l.append((msg, context))
        raise ZeroDivisionError


def clean(flat):
    """after shrinking, keep it a tree"""
    out = []
    for d, t in flat:
        out.append([0 if not out else max(1, min(d, out[-1][0] + 1)), t])
    return out or [[0, '']]


def run_tree(d, st):
    dot, kind = d['dot'] or '.', d['n'] or 'sexpr'
    flat = clean(d['t'])
    with Using(dot, kind) as D:
        tree = build(D, flat, kind)
        text = (D.unparse_sexpr if kind == 'sexpr' else D.unparse_node)(tree)
        eq(text, write(flat, dot), 'the text written')
        how = d['how']
        if how == 'lines':
            got = D.parse_lines(text.split('\n') if text else [])
        elif how == 'file' and '\r' not in text and '\0' not in text and dot != '\0':
            f, n = tempfile.mkstemp()
            os.close(f)
            try:
                with open(n, 'w', newline='') as o:
                    o.write(text)
                got = D.parse_file(n)
            finally:
                os.unlink(n)
        else:
            got = D.parse_string(text)
        g, idx = flat_of(got, kind)
        eq(g, flat, 'the tree parsed from %.300r', text)
        if kind == 'sexpr':
            if len(flat) < 60:
                check(got == tree, 'the tree parsed differs')
        else:
            want = []
            n = 0
            for i, (dd, t) in enumerate(flat):
                want.append(n)
                if not (i == 0 and t == '' and len(flat) > 1):
                    n += 1 + t.count('\n')
            eq(idx, want, 'line numbers of the nodes of %.300r', text)
        if how == 'twice':
            eq((D.unparse_sexpr if kind == 'sexpr' else D.unparse_node)(got), text, 'the text written again')
    ls = [l for dd, t in flat for l in t.split('\n')]
    st.nontrivial(len(flat) > 1 and any(l[:1] in (dot, Q) for l in ls))
    st.label(kind)


def run_text(d, st):
    dot, kind, text = d['dot'] or '.', d['n'] or 'sexpr', d['x']
    flat, lines = parse(text, dot)
    with Using(dot, kind) as D:
        if flat is None:
            st.label('refused')
            st.nontrivial()
            if d['src']:
                s = Src()
                raises(ZeroDivisionError, D.parse_string, text, s)
                eq(len(s.l), 1, 'errors reported for %.300r', text)
                eq(s.l[0][1], lines, 'line of the error in %.300r', text)
            else:
                raises(SyntaxError, D.parse_string, text)
            return
        got = D.parse_string(text)
        g, idx = flat_of(got, kind)
        eq(g, flat, 'the tree parsed from %.300r', text)
        if kind != 'sexpr':
            eq(idx, lines, 'line numbers of the nodes of %.300r', text)
        back = (D.unparse_sexpr if kind == 'sexpr' else D.unparse_node)(got)
        eq(back.strip(), text.strip(), 'text written back')
        st.nontrivial(len(flat) > 1 and any(l.lstrip(dot)[:1] in (dot, Q) for l in text.split('\n')))
        st.label('accepted')


FACETS = {
    'tree': (3, gen_t, run_tree),
    'text': (2, gen_x, run_text),
}


def setup():
    D = dt()
    eq((D.dotchar, D.quotechar), ('.', Q), 'characters')
