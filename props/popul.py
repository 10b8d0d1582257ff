"""A population of objects for the session checks: a generated graph, data objects, and objects that
are easily confused (same class name, same size, equal values)."""
import weakref
from props import graph, p07, p10, values, kinds
from props.hpy import *


def same_named(m):
    """classes and instances that only differ in identity"""
    C = type('Same', (), {'__module__': 'gm', '__slots__': ('a',)})
    o = C()
    return [C, o][m % 2]


def gen_pop(r, hi=10, vals=10):
    v = []
    for _ in range(r.randint(0, vals)):
        if v and r.chance(0.2):
            v.append(list(r.choice(v)))
        else:
            v.append(values.gen_spec(r, values.SMALL, hi=r.pick(3, 10, 40)))
    return {'g': p07.gen_g(r, 2, hi), 'v': v, 'same': [r.randrange(4) for _ in range(r.pick(0, 0, 2, 4))],
            'roots': pickset(r, 40, 1, 6), 'pick': p10.gen_sel(r, r.pick(4, 12, 25)), 'all': r.chance(0.15)}


_ambient = {}


def ambient():
    """Objects that the interpreter holds anyway and may change at any time: what is reached from object"""
    if not _ambient:
        _ambient.update(graph.closure([object] + kinds.builtin_types(), p07.ref_fun([])))
    return _ambient


def is_subclass_dict(x):
    """the dictionary of weak references to the subclasses of a class: the interpreter changes those of builtin classes"""
    return type(x) is dict and x and all(type(k) is int and type(v) is weakref.ref for k, v in list(x.items()))


class Pop:
    def __init__(self, d):
        g = self.g = p07.build(d['g'])
        for s in d['v']:
            g.nodes.append(values.make(s))
            g.kinds.append('v:' + s[0])
        for m in d['same']:
            g.nodes.append(same_named(m))
            g.kinds.append('same')
        self.names = Names(g)
        gens = p07.gens_of(g)
        self.ref = p07.ref_fun(gens)
        n = self.n = len(g.nodes)
        self.root = [g.nodes[i % n] for i in d['roots']]
        self.names[id(self.root)] = 'root'
        self.d = d

    def world(self):
        """ids -> object reachable from the root, and the inverse relation"""
        for o in self.g.nodes:
            if type(o).__flags__ & graph.MANAGED_DICT:
                o.__dict__
        self.w = graph.closure([self.root], self.ref)
        self.inv = p10.inverse(self.w, self.ref)
        return self.w, self.inv

    def targets(self):
        d = self.d
        t = p10.pick_targets(self.g, d['pick'], self.w)
        if d['all']:
            amb = ambient()
            t += [x for i, x in self.w.items() if i not in amb]
        return [x for x in {id(x): x for x in t}.values() if x is not self.root and not is_subclass_dict(x)]
