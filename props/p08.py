"""P08: hiding tags, registered and exact hidden types against a model of visibility."""
import gc
import types
from props.hpy import *
from props import graph, p07

SPEC = dict(
    id='P08', quick=5000, thorough=150000,
    rule='A case is a generated object graph with node sets, node graphs, tagged dictionaries, instances, functions, modules and classes placed in it, each carrying no tag or one of two tags, and '
         'instances of registered, exactly hidden, derived and unregistered slotted types; heaps, reachability, referents, referrers and shortest path steps of one or two views with different tags, and of a '
         'session, are compared with a model of visibility. Non-trivial: an object hidden from a view refers to a generated object and another visible object exists.',
    assumptions=['a node set, node graph or attribute dictionary carrying the tag of a view leads nowhere in that view; whether the container object itself is listed is left open',
                 'an object handed explicitly as a member of an avoided or start set is what the caller says'])


class Reg(object):
    __slots__ = 'a', '_hiding_tag_', 'b', '__weakref__'


class RegSub(Reg):
    __slots__ = 'c',


class RegDict(Reg):
    pass


class Unreg(object):
    __slots__ = 'a', '_hiding_tag_', 'b'


class Exact(object):
    __slots__ = 'a', 'b'


class ExactSub(Exact):
    __slots__ = ()


class Inst(object):
    pass


class NS(mutnodeset):
    __slots__ = 'x',


for c in (Reg, RegSub, RegDict, Unreg, Exact, ExactSub, Inst, NS):
    c.__module__ = 'gm'

TAGK = ['mns', 'ins', 'ng', 'ngm', 'reg', 'regsub', 'regdict', 'unreg', 'exact', 'exactsub', 'inst', 'tagfunc', 'tagmod', 'tagcls', 'tagdict', 'taglist', 'nssub']


def setup():
    gc.disable()
    graph.strip_modules()
    p07.HV = view(None, Tag())


class Tag(list):
    __slots__ = ()


def gen_g(r, lo=3, hi=12):
    mode = r.random()
    kinds = graph.BASIC if mode < 0.6 else graph.SHELLS + graph.DERIVED
    kinds = [k for k in kinds if k not in ('frame', 'tb', 'objframe', 'stackframe', 'genframe')]
    kinds = kinds + TAGK * max(1, len(kinds) // len(TAGK)) + r.sample(TAGK, 4)
    d = graph.gen_graph(r, lo, hi, kinds)
    d['t'] = [r.weighted([(3, 1), (1, 2), (1, 0)]) for _ in d['n']]
    return d


def build(d):
    t1, t2 = Tag(), Tag()
    tags = [None, t1, t2]
    n = len(d['n'])
    cnt = [0]
    frozen = []

    def extra(k, g, x):
        if k == 'mns':
            return mutnodeset()
        if k == 'nssub':
            return NS()
        if k in ('ng', 'ngm'):
            return NodeGraph((), k == 'ngm')
        c = {'reg': Reg, 'regsub': RegSub, 'regdict': RegDict, 'unreg': Unreg, 'exact': Exact, 'exactsub': ExactSub, 'inst': Inst}.get(k)
        if c is not None:
            return c()
        if k == 'tagfunc':
            return g.glob['mk'](None, None)
        if k == 'tagmod':
            return types.ModuleType('tm')
        if k == 'tagcls':
            return type('TC', (), {'__module__': 'gm'})
        if k == 'tagdict':
            return {}
        if k == 'taglist':
            return type('TL', (list,), {'__module__': 'gm'})()
        if k == 'ins':
            # immutable: made of a holder list that can be filled later
            l = []
            frozen.append(l)
            return immnodeset([l])
        return graph.N

    g = graph.build(d, extra)
    it = iter(frozen)
    for i, ((k, refs, x), o) in enumerate(zip(d['n'], g.nodes)):
        h = [g.nodes[j % n] for j in refs]
        tag = tags[d['t'][i]] if 't' in d and i < len(d['t']) else None
        if k in ('mns', 'nssub'):
            for y in h:
                o.add(y)
            if tag is not None:
                o._hiding_tag_ = tag
            if k == 'nssub' and h:
                o.x = h[0]
        elif k == 'ins':
            if tag is not None or x:
                o = g.nodes[i] = immnodeset(h, tag) if tag is not None else immnodeset(h)
                for j in range(n):  # make it reachable from lists
                    if type(g.nodes[j]) is list and i in [q % n for q in d['n'][j][1]]:
                        g.nodes[j].append(o)
        elif k == 'ng':
            for y in h:
                o.add_edge(y, h[0])
            if tag is not None:
                o._hiding_tag_ = tag
        elif k == 'ngm':
            for y in h:
                if y not in o:
                    o.add_edge(y, h[-1])
            if tag is not None:
                o._hiding_tag_ = tag
        elif k in ('reg', 'regsub', 'regdict', 'unreg', 'exact', 'exactsub'):
            if h:
                o.a = h[0]
            if len(h) > 1:
                o.b = h[1]
            if k == 'regsub' and len(h) > 2:
                o.c = h[2]
            if k == 'regdict':
                o.z = h
            if k[:2] != 'ex' and tag is not None:
                o._hiding_tag_ = tag
        elif k in ('inst', 'tagfunc', 'tagmod', 'tagcls', 'taglist'):
            for m, y in enumerate(h):
                setattr(o, graph.attrs(m % 12), y)
            if k == 'taglist':
                o.extend(h)
            if tag is not None:
                o._hiding_tag_ = tag
        elif k == 'tagdict':
            for m, y in enumerate(h):
                o[str(m)] = y
            if tag is not None:
                o['_hiding_tag_'] = tag
    for o in g.nodes:
        if type(o).__flags__ & graph.MANAGED_DICT:
            o.__dict__
    g.tags = tags
    return g


N0 = object()
NSTYPES = (mutnodeset, immnodeset, NodeGraph)


def getdict(o):
    """attribute dictionary of an instance, or None"""
    if isinstance(o, type):
        return o.__dict__
    try:
        d = o.__dict__
    except AttributeError:
        return None
    return d if isinstance(d, dict) and o.__class__ is type(o) else None


def has_dict(o):
    return (isinstance(o, type) or type(o).__dictoffset__ != 0 or type(o) in (types.FunctionType, types.ModuleType) or bool(type(o).__flags__ & graph.MANAGED_DICT))


class Model:
    def __init__(self, tag, reg, exact, gens=()):
        self.tag, self.reg, self.exact = tag, reg, exact
        self.base = p07.ref_fun(gens)

    def hidden(self, o):
        t = type(o)
        if self.exact is not None and t is self.exact:
            return True
        if self.reg is not None and isinstance(o, self.reg):
            return getattr(o, '_hiding_tag_', N0) is self.tag
        if has_dict(o):
            d = o.__dict__
            return d.get('_hiding_tag_') is self.tag if '_hiding_tag_' in d else False
        return False

    def leaf(self, o):
        """visible or not, it leads nowhere"""
        t = type(o)
        if self.hidden(o):
            return True
        if isinstance(o, NSTYPES):
            return getattr(o, '_hiding_tag_', N0) is self.tag
        if isinstance(o, dict):
            return dict.get(o, '_hiding_tag_') is self.tag if dict.__contains__(o, '_hiding_tag_') else False
        return False

    def container(self, o):
        return isinstance(o, NSTYPES) and getattr(o, '_hiding_tag_', N0) is self.tag

    def ref(self, o):
        return () if self.leaf(o) else self.base(o)

    def vref(self, o):
        return [x for x in self.ref(o) if not self.hidden(x)]


def mk_view(root, g, ti, d):
    hv = view(root, g.tags[ti])
    if d['reg']:
        hv.register__hiding_tag__type(Reg)
    if d['exact']:
        hv.register_hidden_exact_type(Exact)
    return hv, Model(g.tags[ti], Reg if d['reg'] else None, Exact if d['exact'] else None, p07.gens_of(g))


def note(g, m, st):
    hid = [o for o in g.nodes if m.leaf(o)]
    i = ids(g.nodes)
    st.nontrivial(any(any(id(x) in i or isinstance(x, dict) for x in gc.get_referents(o)) for o in hid) and len(hid) < len(g.nodes))
    for o in hid:
        st.label('hidden ' + type(o).__name__)


def gen_hv(r):
    return {'g': gen_g(r), 'reg': r.chance(0.8), 'exact': r.chance(0.6), 'views': r.pick([1], [1], [1, 2], [2, 1], [1, 2, 1]), 'start': pickset(r, 12, 1, 3), 'avoid': pickset(r, 12, 0, 3),
            'tgt': pickset(r, 12, 1, 4)}


def ns_only(m, objs):
    return [o for o in objs if m.container(o)]


def run_hv(d, st):
    g = build(d['g'])
    names = Names(g)
    n = len(g.nodes)
    try:
        root = list(g.nodes)
        start = [g.nodes[i % n] for i in d['start']]
        avoid = [g.nodes[i % n] for i in d['avoid']]
        tgt = [g.nodes[i % n] for i in d['tgt']]
        views = [mk_view(root, g, ti, d) for ti in d['views']]
        for k, (hv, m) in enumerate(views):
            w = 'view %d: ' % k
            # heap
            vis = graph.closure([root], m.vref)
            opt = ns_only(m, g.nodes)
            same(hv.heap(), vis, w + 'heap', names, opt)
            # referents
            for o in g.nodes:
                same(hv.relimg([o]), m.vref(o), w + 'referents of ' + names.of(o), names, opt)
            # reachable: hidden start members lead nowhere
            got = hv.reachable(immnodeset(start), immnodeset(avoid))
            av = ids(avoid)
            want = graph.closure([o for o in start if not m.hidden(o)], m.vref, av)
            same(got, want, w + 'reachable', names, opt)
            got = hv.reachable_x(immnodeset(start), immnodeset(avoid))
            wx = dict(want)
            for o in start:
                if not m.hidden(o):
                    wx[id(o)] = o
            for o in want.values():
                for x in m.vref(o):
                    wx[id(x)] = x
            same(got, wx, w + 'reachable_x', names, opt)
            # referrers
            rg = NodeGraph()
            hv.update_referrers(rg, immnodeset(tgt))
            for t in tgt:
                got = rg.relimg([t])
                if m.hidden(t):
                    continue
                same(got, [o for o in vis.values() if any(x is t for x in m.vref(o))], w + 'referrers of ' + names.of(t), names, opt)
            # a path step never starts at a hidden object
            G = NodeGraph()
            U = immnodeset([o for o in start])
            V = hv.shpathstep(G, U, immnodeset(start))
            wv = {}
            we = set()
            sid = ids(start)
            for o in start:
                for x in m.ref(o):
                    if id(x) not in sid:
                        wv[id(x)] = x
                        we.add((id(x), id(o)))
            same([o for o in V if not m.hidden(o)], {i: o for i, o in wv.items() if not m.hidden(o)}, w + 'path step', names, opt)
            fl = {(id(a), id(b)) for a, b in G}
            check(fl == we, '%spath step edges: %d, want %d', w, len(fl), len(we))
            note(g, m, st)
            # sizes and edges of a hidden object
            for o in g.nodes:
                for t in tgt:
                    ne = hv.numedges(o, t)
                    if m.leaf(o):
                        check(ne == 0, '%s%d edges from hidden %s', w, ne, names.of(o))
    finally:
        g.clear()


RESULTS = ['heap', 'idset', 'bytype', 'kind', 'referrers', 'shpaths', 'rp', 'more', 'iso', 'rel', 'byrcs', 'theone', 'part', 'dominos', 'str', 'nodes', 'er']


def gen_sess(r):
    return {'g': gen_g(r, 3, 9), 'keep': [[r.choice(RESULTS), r.randrange(12), r.randrange(12), r.randrange(3)] for _ in range(r.randint(1, 6))], 'two': r.chance(0.4)}


def result(h, root, k, a, b):
    """a session object made by examining a (and b)"""
    if k == 'heap':
        return h.heap()
    if k == 'idset':
        return h.idset([a, b])
    if k == 'bytype':
        return h.idset([a, b]).bytype
    if k == 'kind':
        return h.iso(a, b).kind
    if k == 'referrers':
        return h.iso(a).referrers
    if k == 'shpaths':
        p = h.iso(a).get_shpaths(h.iso(root))
        str(p)
        return p
    if k == 'paths2':
        p = h.iso(a).get_shpaths(h.iso(root))
        return p[0] if p.numpaths else p
    if k == 'rp':
        return h.iso(a).rp
    if k == 'more':
        return h.iso(a, b).more
    if k == 'iso':
        return h.iso(a)
    if k == 'rel':
        return h.iso(a).byrcs
    if k == 'byrcs':
        s = h.iso(a, b).byrcs
        str(s)
        return s
    if k == 'theone':
        return h.iso(a) | h.iso(b)
    if k == 'part':
        s = h.iso(a, b).byid
        s.stat, s.partition
        return s
    if k == 'dominos':
        return h.iso(a).dominos
    if k == 'str':
        s = h.iso(a)
        str(s), repr(s)
        return s
    if k == 'nodes':
        return h.iso(a, b) & ~h.iso(b)
    if k == 'er':
        return h.Type(list)
    raise HarnessError(k)


def run_sess(d, st):
    g = build(d['g'])
    names = Names(g)
    n = len(g.nodes)
    h = hp()
    tag = h.View._hiding_tag_
    for i, o in enumerate(g.nodes):
        # some of the objects carry the session's own tag
        if d['g']['t'][i] == 2 and d['g']['n'][i][0] in ('inst', 'tagfunc', 'tagmod', 'tagcls', 'taglist', 'mns', 'ng', 'nssub'):
            o._hiding_tag_ = tag
    m = Model(tag, None, None, p07.gens_of(g))
    box = []
    root = [list(g.nodes), box]
    try:
        with rooted(h, root):
            h.heap()  # collects the classes of earlier cases
            want = graph.closure([root], m.vref)
            opt = ns_only(m, g.nodes)
            same(h.heap().nodes, want, 'session heap', names, opt)
            base = h.heap().count
            rs = {}
            for o in g.nodes:
                if not m.hidden(o):
                    rs[id(o)] = list(h.iso(o).referrers.nodes)
                    same(rs[id(o)], [x for x in want.values() if any(y is o for y in m.vref(x))], 'session referrers of ' + names.of(o), names, opt)
            for k, a, b, where in d['keep']:
                x = result(h, root, k, g.nodes[a % n], g.nodes[b % n])
                # keep the session's object in the examined program
                if where == 0:
                    box.append(x)
                elif where == 1:
                    box.append([x])
                else:
                    box.append({'r': x})
                st.label('kept ' + k)
                del x
            box2 = {}
            w2 = graph.closure([root], lambda o: m.vref(o) if not internal(o) else ())
            w2 = {i: o for i, o in w2.items() if not internal(o)}
            same(h.heap().nodes, w2, 'session heap with session objects stored in it', names, opt)
            for o in g.nodes:
                if not m.hidden(o):
                    same(h.iso(o).referrers.nodes, rs[id(o)], 'session referrers with session objects stored', names, opt)
            st.nontrivial(len(d['keep']) > 0)
            if d['two']:
                # a view with a tag of its own sees what only the session's view hides
                t2 = []
                hv2 = h.View.new_hv(_hiding_tag_=t2, root=[g.nodes])
                m2 = Model(t2, None, None, p07.gens_of(g))
                want = graph.closure([hv2.root], m2.vref)
                same(hv2.heap(), want, 'heap of a view with another tag', names, ns_only(m2, g.nodes))
                same(hv2.relimg(g.nodes), [y for o in g.nodes for y in m2.vref(o)], 'referents in a view with another tag', names, ns_only(m2, g.nodes))
    finally:
        h.View.clear_retainers()
        box.clear()
        g.clear()


def internal(o):
    return type(o).__module__.startswith('guppy.') and not isinstance(o, NSTYPES)


FACETS = {
    'hv': (6, gen_hv, run_hv),
    'sess': (1, gen_sess, run_sess),
}
