"""P24: session objects resolve names lazily and stay independent."""
import importlib
import itertools
import os
import shutil
import sys
import tempfile
import types
import guppy
from guppy.etc.Glue import Interface, Root
from pbt.core import Violation, check, eq, raises, HarnessError

SPEC = dict(
    id='P24', quick=6000, thorough=150000, stuck=300,
    rule='(tree) A case is a generated package of up to 6 modules, whose names are variables, attributes, methods, computed values, imports from parent or root, names found along a search path, changeable and settable names, preloaded names and names that fail, and a history of up to 40 requests and changes '
         'by up to 3 sessions over any path. A model that resolves by need says what each gives: the very same object in a session every time, a computed value computed once in each session, errors each time, changes seen in the session and refused where not declared. '
         '(real) The names of the real modules of the library are asked for in two orders and over different paths in two new sessions: the same ones fail and the others give the same thing. '
         '(options) A history of option changes, of sessions and single printing objects, and of renderings is run with two sessions interleaved and for each session alone: texts are the same, and undeclared names are refused. Non-trivial: at least 8 requests, or 2 changes and 2 renderings.',
    assumptions=['an interface to a module may be several objects', 'names that need each other more than nine levels deep are refused by design', 'a missing top level module raises the import error'])


# ---------------------------------------------------------------- a generated package

KIND = [(3, 'v'), (2, 'c'), (1, 'vc'), (2, 'f'), (5, 'g'), (4, 'i'), (2, 'h'), (1.5, 's'), (1, 'hs'), (1, 'bad'), (.7, 'badattr'), (.5, 'noimp'), (1, 'gv')]


# modules that cannot be used: what is raised, every time, and the source
BROKEN = [(ImportError, 'import p24_missing_module\n')] + [(e, 'class _GLUECLAMP_:\n    %s\n' % s) for e, s in [
    (TypeError, 'def _set_q(self, value): pass'), (TypeError, "_setable_ = ['q']"), (TypeError, "_chgable_ = ['q']"), (TypeError, "_imports_ = ['_parent:q']"),
    (SyntaxError, "_imports_ = ('q',)"), (SyntaxError, "_imports_ = ('_parent:q:q',)"), (TypeError, "_setable_ = _chgable_ = 'q'")]]


def gen_t(r):
    n = r.randint(1, 6)
    mods = []
    for i in range(n):
        mods.append({'p': r.randrange(max(1, i)), 'pkg': int(r.chance(.5)), 'clamp': int(r.chance(.85)), 'broken': r.randint(1, len(BROKEN)) if i > 0 and r.chance(.1) else 0, 'gp': [r.randrange(8) for _ in range(r.pick(0, 0, 0, 1, 2))], 'pre': r.randrange(8) if r.chance(.2) else -1,
                     'd': [[r.weighted(KIND), [r.randrange(60) for _ in range(r.pick(0, 1, 1, 2, 3))], r.randrange(4)] for _ in range(r.randint(0, 7))]})
    ops = []
    for _ in range(r.randint(1, 40)):
        ops.append([r.weighted([(10, 'get'), (2, 'set'), (1, 'setsame'), (1, 'unknown'), (1, 'mod'), (1, 'again')]), r.randrange(3), r.randrange(60), r.randrange(6), r.randrange(1000)])
    return {'m': mods, 'o': ops}


COUNT = itertools.count()
NOCLAMP = {'v', 'gv'}


class Val:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


class Unset(Exception):
    pass


class Pkg:
    """the generated package: files, and the model of what its names give"""

    def __init__(self, d):
        self.top = 'p24_%d_%d' % (os.getpid(), next(COUNT))
        ms = d['m'][:8] or [{'p': 0, 'pkg': 1, 'clamp': 0, 'broken': 0, 'gp': [], 'pre': -1, 'd': []}]
        self.mods = []
        self.names = []          # all (module, name) in order
        self.depth = {}
        for i, m in enumerate(ms):
            par = -1 if i == 0 else m['p'] % i
            while par > 0 and not self.mods[par]['pkg']:
                par = self.mods[par]['p']
            x = {'p': par, 'pkg': 1 if i == 0 else m['pkg'], 'clamp': m['clamp'], 'broken': (m['broken'] - 1) % len(BROKEN) + 1 if m['broken'] and i > 0 else 0, 'd': {}, 'gp': [], 'pre': None, 'name': self.top if i == 0 else 'm%d' % i}
            x['path'] = x['name'] if i == 0 else self.mods[par]['path'] + '.' + x['name']
            x['badchain'] = x['broken'] or (i > 0 and self.mods[par]['badchain'])
            self.mods.append(x)
            if x['clamp']:
                x['gp'] = [g % i for g in m['gp'][:2] if i and not self.mods[g % i]['badchain'] and g % i != i]
            usable = list(self.names)
            for j, (k, refs, alt) in enumerate(m['d'][:8]):
                if not x['clamp'] and k not in NOCLAMP:
                    k = 'v'
                if x['badchain']:
                    break
                name = 'x%d' % j
                rs = []
                for q in refs[:3]:
                    if usable:
                        y = usable[q % len(usable)]
                        if self.depth[y] < 6:
                            rs.append(y)
                if k in ('i', 'f') and not rs:
                    k = 'c'
                if k == 'i':
                    # an import is named as what it imports
                    rs = rs[:1]
                    name = rs[0][1]
                    if name in x['d'] or rs[0][0] == i or self.kind(*rs[0]) == 's':
                        continue
                elif name in x['d']:
                    continue
                if k == 'f':
                    rs = rs[:1]
                if k == 'noimp':
                    if i == 0:
                        continue
                    name = 'nn%d' % j
                x['d'][name] = [k, rs, alt]
                self.names.append((i, name))
                usable.append((i, name))
                self.depth[i, name] = 1 + max([self.depth[y] for y in rs], default=0)
            pre = [n for n, (k, rs, a) in x['d'].items() if k == 'c' or (k == 'g' and not rs)]
            if x['clamp'] and pre and m['pre'] >= 0:
                x['pre'] = pre[m['pre'] % len(pre)]

    def kind(self, i, name):
        return self.mods[i]['d'][name][0]

    def rel(self, i, j, alt):
        """an expression path from module i to module j"""
        if alt % 2 == 0:
            return '_root.' + self.mods[j]['path']
        a = []
        k = i
        while k >= 0:
            a.append(k)
            k = self.mods[k]['p']
        a.append(-1)
        b = []
        k = j
        while k >= 0 and k not in a:
            b.append(k)
            k = self.mods[k]['p']
        ups = a.index(k if k in a else -1)
        if ups == 0:
            return '_root.' + self.mods[j]['path']
        return '.'.join(['_parent'] * ups + [self.mods[x]['name'] for x in reversed(b)])

    def write(self, dir):
        for i, m in enumerate(self.mods):
            p = os.path.join(dir, *m['path'].split('.'))
            if m['pkg']:
                os.makedirs(p)
                f = os.path.join(p, '__init__.py')
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                f = p + '.py'
            with open(f, 'w') as fh:
                fh.write(self.source(i))

    def source(self, i):
        m = self.mods[i]
        if m['broken']:
            return BROKEN[m['broken'] - 1][1]
        o = ['LOG = []', 'class Val:', '    def __init__(self, name):', '        self.name = name']
        c = []
        imports, chg, sets = [], [], []
        for name, (k, rs, alt) in m['d'].items():
            full = '%d.%s' % (i, name)
            if k in ('v', 'vc', 'gv'):
                o.append('%s = Val(%r)' % (name, full))
            if k in ('c', 'vc'):
                c.append('    %s = Val(%r)' % (name, 'c' + full))
            if k == 'f':
                j, n = rs[0]
                c.append('    def %s(self):' % name)
                c.append('        return self.%s.%s' % (self.rel(i, j, alt), n) if j != i else '        return self.%s' % n)
            if k == 'g':
                c.append('    def _get_%s(self):' % name)
                c.append('        self._module.LOG.append(%r)' % name)
                c.append('        return [%s]' % ', '.join('self.%s.%s' % (self.rel(i, j, alt + q), n) if j != i else 'self.%s' % n for q, (j, n) in enumerate(rs)))
            if k == 'i':
                imports.append('%s:%s' % (self.rel(i, rs[0][0], alt), name))
            if k in ('h', 'hs'):
                chg.append(name)
                if alt % 2:
                    c.append('    %s = Val(%r)' % (name, 'c' + full))
                else:
                    c.append('    def _get_%s(self):' % name)
                    c.append('        self._module.LOG.append(%r)' % name)
                    c.append('        return []')
                if k == 'hs':
                    c.append('    def _set_%s(self, value):' % name)
                    c.append('        self._module.LOG.append(("set", %r, value))' % name)
            if k == 's':
                sets.append(name)
            if k == 'bad':
                c.append('    def _get_%s(self):' % name)
                c.append('        raise %s(%r)' % (['ValueError', 'KeyError', 'ZeroDivisionError', 'OSError'][alt % 4], name))
            if k == 'badattr':
                c.append('    def _get_%s(self):' % name)
                c.append('        return self.%s' % ['nosuch', '_root.%s.nosuch' % self.top, '_module.nosuch', '_parent.nosuch' if i else 'nosuch'][alt % 4])
            if k == 'noimp':
                imports.append('%s:%s' % (self.rel(i, self.mods[i]['p'], alt), name))
        if m['clamp']:
            o.append('class _GLUECLAMP_:')
            o.append('    _imports_ = %r' % (tuple(imports),))
            o.append('    _chgable_ = %r' % (tuple(chg),))
            o.append('    _setable_ = %r' % (tuple(sets),))
            if m['pre']:
                o.append('    _preload_ = %r' % ((m['pre'],),))
            if m['gp']:
                o.append('    _GLUEPATH_ = %r' % ', '.join(self.rel(i, g, k) for k, g in enumerate(m['gp'])))
            o += c
        return '\n'.join(o) + '\n'


class Sess:
    def __init__(self):
        self.root = Root()
        self.memo = {}           # (module, name) -> ('val', python object known or None, model) of resolved names
        self.held = []           # (module, interface)
        self.touched = set()
        self.calls = {}          # (module, name) -> times computed


class Fail(Exception):
    """the model's error: an exception class"""


class M:
    """resolves for one session: a symbolic value; identity is kept in .obj"""
    def __init__(self, tag, items=None):
        self.tag = tag
        self.items = items
        self.obj = None
        self.known = False


def run_tree(d, st):
    pk = Pkg(d)
    dir = tempfile.mkdtemp(prefix='p24')
    sys.path.insert(0, dir)
    dwb = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        pk.write(dir)
        importlib.invalidate_caches()
        play(pk, d, st)
    finally:
        sys.dont_write_bytecode = dwb
        sys.path.remove(dir)
        for k in [k for k in sys.modules if k == pk.top or k.startswith(pk.top + '.')]:
            del sys.modules[k]
        sys.path_importer_cache.pop(dir, None)
        shutil.rmtree(dir)


def play(pk, d, st):
    sess = [Sess() for _ in range(3)]
    shared = {}       # (module, 'v'/'c', name) -> M of objects of the module itself
    failed = set()    # those may be tried several times
    n = 0

    def touch(s, i):
        """the module is seen by the session: its parents are, and preloaded names are resolved"""
        m = pk.mods[i]
        if m['p'] >= 0:
            touch(s, m['p'])
            for g in pk.mods[m['p']]['gp']:
                # it is looked for on the search path of its package first
                if i not in s.touched:
                    try:
                        ask(s, g, m['name'])
                    except Fail as e:
                        if e.args[0] is not AttributeError:
                            raise
        if m['broken']:
            raise Fail(BROKEN[m['broken'] - 1][0])
        if i not in s.touched:
            s.touched.add(i)
            if m['pre']:
                value(s, i, m['pre'])

    def mine(i, k, name):
        x = shared.get((i, k, name))
        if x is None:
            x = shared[i, k, name] = M('%s%d.%s' % (k, i, name))
        return x

    def value(s, i, name):
        """the model's value of a name that has it; raises Fail"""
        touch(s, i)
        x = s.memo.get((i, name))
        if x is not None:
            return x
        try:
            x = s.memo[i, name] = compute(s, i, name)
        except Fail:
            failed.add((i, name))
            raise
        return x

    def compute(s, i, name):
        touch(s, i)
        m = pk.mods[i]
        k, rs, alt = m['d'].get(name, ('none', [], 0))
        if k in ('c', 'vc') or (k in ('h', 'hs') and alt % 2):
            return mine(i, 'c', name)
        if k == 'f':
            return M('method', [i, name])
        if k in ('g', 'h', 'hs'):
            s.calls[i, name] = s.calls.get((i, name), 0) + 1
            return M('list', [value(s, j, q) for j, q in rs] if k == 'g' else [])
        if k == 'bad':
            raise Fail([ValueError, KeyError, ZeroDivisionError, OSError][alt % 4])
        if k == 'badattr':
            if alt % 4 == 1:
                ask(s, 0, 'nosuch')
            elif alt % 4 != 2:
                ask(s, m['p'] if alt % 4 == 3 and i else i, 'nosuch')
            raise Fail(AttributeError)
        if k == 'i':
            return value(s, *rs[0])
        if k == 'noimp':
            # asked of the parent package
            return ask(s, m['p'], name)
        # the search path
        for g in m['gp']:
            try:
                return ask(s, g, name)
            except Fail as e:
                if e.args[0] is not AttributeError:
                    raise
        if k in ('v', 'gv') or name == 'LOG':
            return mine(i, 'v', name)
        raise Fail(AttributeError)

    def ask(s, i, name):
        """any name"""
        touch(s, i)
        return value(s, i, name)

    def verify(s, x, got, what):
        """an object against the model, and the same as before"""
        if x.tag == 'given':
            check(got is x.obj, '%s gives %r, set to %r', what, got, x.obj)
            return
        if x.known:
            check(got is x.obj, '%s gives another object %r than before, %r', what, got, x.obj)
            return
        if x.tag == 'method':
            i, name = x.items
            check(type(got) is types.MethodType and got.__func__ is module(i)._GLUECLAMP_.__dict__[name], '%s is %r', what, got)
            check(isinstance(got.__self__, Interface) and got.__self__._module is module(i), '%s is a method of %r', what, got)
        elif x.tag == 'list':
            check(type(got) is list and len(got) == len(x.items), '%s gives %r', what, got)
            for k, y in enumerate(x.items):
                verify(s, y, got[k], '%s[%d]' % (what, k))
        else:
            i, name = x.tag[1:].split('.')
            mod = module(int(i))
            want = mod.__dict__[name] if x.tag[0] == 'v' else mod._GLUECLAMP_.__dict__[name]
            check(got is want, '%s gives %r, expected the one of %s', what, got, x.tag)
        x.obj = got
        x.known = True

    def module(i):
        return sys.modules[pk.mods[i]['path']]

    def reach(s, i, how):
        """the interface of a module, over some path; (interface) or raises"""
        if how % 3 and s.held:
            j, base = s.held[how % len(s.held)]
            path = pk.rel(j, i, how // 3)
            if i == j and how % 2:
                return base
        else:
            base = s.root
            path = pk.mods[i]['path']
        for a in path.split('.'):
            base = getattr(base, a)
        return base

    def request(s, i, name, how, what):
        nonlocal n
        n += 1
        try:
            want = ask(s, i, name)
        except Fail as e:
            want = e
        try:
            inter = reach(s, i, how)
            got = getattr(inter, name)
        except Exception as e:
            if not isinstance(want, Fail):
                raise Violation('%s raises %r, expected %s' % (what, e, want.tag))
            if not isinstance(e, want.args[0]):
                raise Violation('%s raises %r, expected %s' % (what, e, want.args[0].__name__))
            st.label('error')
            return None
        if isinstance(want, Fail):
            raise Violation('%s gives %r, expected %s' % (what, got, want.args[0].__name__))
        check(isinstance(inter, Interface) and inter._module is module(i), '%s: interface of another module', what)
        s.held.append((i, inter))
        verify(s, want, got, what)
        if want.tag == 'method' and not (how // 7) % 3:
            j, q = pk.mods[want.items[0]]['d'][want.items[1]][1][0]
            try:
                w = ask(s, j, q)
            except Fail as e:
                w = e
            try:
                r = got()
            except Exception as e:
                if not isinstance(w, Fail) or not isinstance(e, w.args[0]):
                    raise Violation('%s() raises %r, expected %s' % (what, e, w))
                return got
            check(not isinstance(w, Fail), '%s() gives %r, expected an error', what, r)
            verify(s, w, r, what + '()')
        return got

    last = None
    for k, (op, a, b, c, how) in enumerate(d['o'][:60]):
        s = sess[a % 3]
        i = c % len(pk.mods)
        if op in ('get', 'set', 'setsame') and pk.names:
            i, name = pk.names[b % len(pk.names)]
        elif op == 'again' and last:
            i, name = last
        else:
            # any name in any module: also those of other modules, over the search path
            name = ['nope', 'x0', 'x1', 'x2', '__nope__', '_get_x0', 'x99'][b % 7] if op != 'mod' else 'LOG'
            if name == '_get_x0':
                name = 'nopes'
        what = 'step %d: session %d, %s.%s' % (k, a % 3, pk.mods[i]['path'][len(pk.top):], name)
        if op in ('set', 'setsame') and pk.names:
            m = pk.mods[i]
            kd, rs, alt = m['d'][name]
            try:
                inter = reach(s, i, how)
                touch(s, i)
            except ImportError:
                continue
            cur = s.memo.get((i, name))
            if op == 'setsame':
                if cur is None or not cur.known:
                    continue
                v = cur.obj
            else:
                v = Val('given%d' % k)
            ok = bool(m['clamp'])
            if kd in ('h', 'hs'):
                pass
            elif kd == 's' and (cur is None or op == 'setsame'):
                pass
            elif op != 'setsame':
                ok = False
            log = list(module(i).LOG)
            try:
                setattr(inter, name, v)
            except ValueError as e:
                check(not ok, '%s: set to %r is refused: %s', what, v, e)
                eq(len(module(i).LOG), len(log), '%s: calls at a refused change', what)
                st.label('set refused')
            else:
                check(ok, '%s: set to %r is not refused', what, v)
                if kd == 'hs':
                    check(module(i).LOG[len(log):] == [('set', name, v)], '%s: calls at the change %r', what, module(i).LOG[len(log):])
                if op == 'set':
                    x = M('given')
                    x.obj = v
                    s.memo[i, name] = x
                st.label('set')
            s.held.append((i, inter))
            continue
        request(s, i, name, how, what)
        last = i, name
    # computed once in each session that asked, and what was found before is found again
    for s in sess:
        for (i, name), x in list(s.memo.items()):
            if x.known:
                inter = reach(s, i, 0)
                verify(s, x, getattr(inter, name), 'at the end: %s.%s' % (pk.mods[i]['path'][len(pk.top):], name))
    for i, m in enumerate(pk.mods):
        mod = sys.modules.get(m['path'])
        if mod is None or not hasattr(mod, 'LOG'):
            continue
        for name in m['d']:
            if (i, name) in failed:
                continue
            got = mod.LOG.count(name)
            want = sum(s.calls.get((i, name), 0) for s in sess)
            if got != want:
                raise Violation('%s.%s was computed %d times, expected %d' % (m['path'][len(pk.top):], name, got, want))
    st.nontrivial(n >= 8)


# ---------------------------------------------------------------- the real modules

REAL = ['guppy.heapy.' + n for n in ('Classifiers', 'Doc', 'ImpSet', 'OutputHandling', 'Part', 'Path', 'RefPat', 'RemoteConstants', 'Spec', 'UniSet', 'Use', 'View', 'Prof', 'Console')] + \
    ['guppy.etc.' + n for n in ('Glue', 'Descriptor', 'textView', 'IterPermute', 'KnuthBendix', 'FSA', 'RE', 'etc', 'cmd', 'tkcursors')] + \
    ['guppy.gsl.' + n for n in ('DottedTree', 'FileIO', 'Filer', 'SpecNodes', 'Text', 'XHTML', 'Tester')] + ['guppy.sets', 'guppy.heapy', 'guppy']
TABLE = []
SKIP = {'_root', '_parent', '_module'}


def table():
    for mn in REAL:
        try:
            m = importlib.import_module(mn)
        except Exception:
            continue
        names = set()
        C = getattr(m, '_GLUECLAMP_', None)
        if C is not None:
            for a in dir(C):
                if a.startswith('_get_'):
                    names.add(a[5:])
                elif not a.startswith('__') and not a.startswith('_set_') and a not in ('_imports_', '_chgable_', '_setable_', '_preload_'):
                    names.add(a)
            for x in getattr(C, '_imports_', ()):
                names.update(y.strip() for y in x.split(':')[1].split(','))
        names.update(a for a in vars(m) if not a.startswith('_'))
        names.update(['nosuch', 'Nosuch2'])
        for a in sorted(names - SKIP):
            TABLE.append((mn, a))


def gen_r(r):
    l = [r.randrange(5000) for _ in range(r.pick(2, 5, 10, 20, 40))]
    if r.chance(.5):
        # the names of one module
        a = r.randrange(5000)
        l = [a + r.randrange(60) for _ in l]
    return {'l': l, 'p': r.randrange(1000), 'o': r.randrange(3)}


def outcome(f):
    try:
        x = f()
    except Exception as e:
        return None, ['raises', type(e).__name__, str(e)[:200]]
    if isinstance(x, Interface):
        m = x._module
        return x, ['interface', m.__name__ if m else None]
    t = type(x)
    if t in (str, int, bool, float, type(None), tuple) and len(repr(x)) < 500:
        return x, ['value', repr(x)] if t is not tuple or ' at 0x' not in repr(x) else ['tuple', len(x)]
    if t is types.MethodType:
        return x, ['method', getattr(x.__func__, '__module__', None), getattr(x.__func__, '__qualname__', None), type(x.__self__).__name__]
    if t is types.FunctionType:
        return x, ['function', x.__module__, x.__qualname__]
    if t is type:
        return x, ['class', x.__module__, x.__qualname__]
    if t is types.ModuleType:
        return x, ['module', x.__name__]
    if t is types.BuiltinFunctionType:
        return x, ['builtin', x.__qualname__, type(x.__self__).__name__]
    return x, ['instance', t.__module__, t.__name__]


def run_real(d, st):
    l = []
    for x in d['l'][:60]:
        e = TABLE[x % len(TABLE)]
        if e not in l:
            l.append(e)
    if d['o'] == 0:
        l2 = l[::-1]
    elif d['o'] == 1:
        l2 = sorted(l)
    else:
        k = d['p'] % len(l)
        l2 = l[k:] + l[:k]
    res = []
    for which, order in enumerate((l, l2)):
        root = Root()
        got = {}
        first = {}
        base = None
        for k, (mn, a) in enumerate(order):
            def get():
                if which and base is not None and (k + d['p']) % 2:
                    x = base._root
                else:
                    x = root
                for p in mn.split('.'):
                    x = getattr(x, p)
                return x
            try:
                m = get()
            except Exception as e:
                got[mn, a] = ['module raises', type(e).__name__, str(e)[:200]]
                continue
            check(isinstance(m, Interface) and m._module.__name__ == mn, 'interface of %s is %r', mn, m)
            base = m
            first[mn, a], got[mn, a] = outcome(lambda: getattr(m, a))
        for mn, a in order:
            if got[mn, a][0] == 'module raises':
                continue
            x = root
            for p in mn.split('.'):
                x = getattr(x, p)
            v, o = outcome(lambda: getattr(x, a))
            if o != got[mn, a]:
                raise Violation('%s.%s gave %r when first asked for, then %r' % (mn, a, got[mn, a], o))
            if o[0] not in ('raises', 'interface', 'value', 'tuple') and a not in getattr(getattr(x._module, '_GLUECLAMP_', None), '_chgable_', ()):
                check(v is first[mn, a] or type(v) is types.MethodType and v == first[mn, a], '%s.%s gives another object the second time', mn, a)
        res.append(got)
    for e in l:
        if res[0][e] != res[1][e]:
            raise Violation('%s.%s gives %r or %r, by the order of requests' % (e + (res[0][e], res[1][e])))
        if e[1] in ('nosuch', 'Nosuch2') and e[0] != 'guppy':
            eq(res[0][e][:2], ['raises', 'AttributeError'], '%s.%s', *e)
    st.nontrivial(len(l) >= 8)


# ---------------------------------------------------------------- options

OPTS = [('OutputHandling', 'max_more_lines', [1, 2, 3, 5, 10, 30]), ('Part', 'line_length', [40, 60, 80, 100, 120]), ('Part', 'backup_suffix', ['.old', '~']), ('Use', 'reprefix', ['', 'h.', 'hp.']), ('Use', 'default_reprefix', ['q.', 'hpy().']),
        ('UniSet', 'max_summary_length', [10, 30, 80]), ('UniSet', 'out_reach_module_names', [('UniSet',), ('UniSet', 'View', 'Path', 'RefPat')]), ('UniSet', 'auto_convert_type', [True, False]), ('UniSet', 'auto_convert_iter', [True, False]),
        ('Path', 'srcname_1', ['Src', 'S']), ('Path', 'srcname_n', ['n_', 'm_']), ('RefPat', 'depth', [2, 7]), ('RefPat', 'line_length', [40, 80]),
        ('View', 'is_rg_update_all', [True, False]), ('View', '_is_clear_drg_enabled', [0, 1])]
FIXED = [('Use', 'heap'), ('Use', 'iso'), ('Part', '_hiding_tag_'), ('View', 'hv'), ('UniSet', 'Anything'), ('OutputHandling', 'setup_printing'), ('Classifiers', 'Type'), ('Path', 'dstname'), ('Use', 'nosuch'), ('UniSet', 'x')]


def gen_o(r):
    ops = []
    for _ in range(r.randint(2, 18)):
        k = r.weighted([(4, 'opt'), (2, 'new'), (3, 'show'), (1.5, 'kind'), (1, 'line'), (.6, 'fixed'), (1, 'conv'), (.5, 'read')])
        ops.append([k, r.randrange(2), r.randrange(100), r.randrange(100), r.randrange(100)])
    return {'o': ops, 'n': r.randint(1, 30), 's': r.randrange(3)}


def mkobjs(n):
    """n objects of n classes"""
    out = []
    for i in range(n):
        out.append(CLS[i % len(CLS)]())
    return out


CLS = [type('K%02d' % i, (), {}) for i in range(32)]


def run_ops(h, ops, objs, strs, which=None):
    """run the operations of a session, or of all, giving the texts"""
    out = {0: [], 1: []}
    pr = {0: [], 1: []}
    for op, w, a, b, c in ops:
        w %= 2
        if which is not None and w != which:
            continue
        s = h[w]
        par = s._parent
        try:
            t = step(s, par, op, a, b, c, objs, strs, pr[w])
        except (ValueError, TypeError, AttributeError, NameError) as e:
            t = 'error %s: %s' % (type(e).__name__, str(e)[:300])
        out[w].append([op, t])
    return out


def step(s, par, op, a, b, c, objs, strs, pr):
    if op == 'opt':
        m, o, vs = OPTS[a % len(OPTS)]
        v = vs[b % len(vs)]
        setattr(getattr(par, m), o, v)
        got = getattr(getattr(par, m), o)
        check(got is v, 'option %s.%s after its change to %r is %r', m, o, v, got)
        return '%s.%s=%r' % (m, o, v)
    if op == 'fixed':
        m, o = FIXED[a % len(FIXED)]
        x = getattr(par, m)
        try:
            setattr(x, o, objs)
        except ValueError:
            return 'refused'
        raise Violation('%s.%s is changed' % (m, o))
    if op == 'read':
        m, o, vs = OPTS[a % len(OPTS)]
        return '%s.%s is %r' % (m, o, getattr(getattr(par, m), o))
    if op == 'new':
        k = 1 + b % max(1, len(objs))
        x = s.iso(*(objs[:k] if a % 3 else strs[:k]))
        er = [lambda: x, lambda: x.bytype, lambda: x.byclodo, lambda: x.bysize, lambda: x.byid, lambda: x.bymodule][c % 6]
        pr.append(er())
        return len(pr)
    if op == 'show':
        if not pr:
            return None
        x = pr[a % len(pr)]
        return repr([lambda: x, lambda: x.more, lambda: x.all, lambda: x.more.more, lambda: x.parts[0], lambda: x.kind, lambda: x.byid, lambda: x.more.prev][b % 8]())
    if op == 'line':
        if not pr:
            return None
        x = pr[a % len(pr)]
        p = x.printer
        p.max_more_lines = 1 + b % 12
        return repr(x)
    if op == 'kind':
        k = [lambda: s.Type(int), lambda: s.Class(CLS[0]), lambda: s.Rcs(int), lambda: s.Size(24) & s.Type(int), lambda: s.Type(int) | s.Type(str), lambda: s.Anything, lambda: s.Nothing, lambda: ~s.Type(int), lambda: s.iso(strs[0]), lambda: s.Root, lambda: s, lambda: s.Use][a % 12]()
        t = repr(k)
        return t if a % 12 != 9 else type(k).__name__
    if op == 'conv':
        x = s.iso(*strs[:3])
        y = [lambda: x & int, lambda: x & str, lambda: x | [1], lambda: s.Type(str) & str, lambda: x - str, lambda: x <= str][b % 6]()
        return str(y)


def run_options(d, st):
    objs = mkobjs(max(1, min(32, d['n'])))
    strs = STRS
    both = run_ops([guppy.hpy(), guppy.hpy()], d['o'], objs, strs)
    for w in (0, 1) if d['s'] == 0 else ((d['s'] - 1) % 2,):
        alone = run_ops([guppy.hpy(), None] if w == 0 else [None, guppy.hpy()], d['o'], objs, strs, w)
        for k, (x, y) in enumerate(zip(both[w], alone[w])):
            if x != y:
                raise Violation('session %d, its step %d (%s): with another session\n%s\nalone\n%s' % (w, k, x[0], x[1], y[1]))
    ops = [o[0] for o in d['o']]
    st.nontrivial(ops.count('opt') >= 2 and ops.count('show') + ops.count('kind') >= 2)
    for o in both[0] + both[1]:
        if str(o[1]).startswith('error'):
            st.label('error in step')


STRS = [s + str(i) for i in range(10) for s in ('some text ', 'x', '')] + ['y' * 300]
FACETS = {
    'tree': (8, gen_t, run_tree),
    'real': (1.2, gen_r, run_real),
    'options': (.6, gen_o, run_options),
}


def setup():
    table()
