"""Shared access to the code under test for the heap checks."""
import gc
import sys
import types
import guppy
from guppy.heapy import heapyc
from guppy.heapy.heapyc import HeapView, RootState, NodeGraph
from guppy.sets import setsc
from guppy.sets import immnodeset, mutnodeset
from pbt.core import Violation, check, eq, raises, HarnessError
from props import graph

HD = (setsc._NyHeapDefs_, heapyc._NyHeapDefs_) if hasattr(heapyc, '_NyHeapDefs_') else (setsc._NyHeapDefs_,)


def view(root=None, tag=None):
    hv = HeapView(root, HD)
    if tag is not None:
        hv._hiding_tag_ = tag
    return hv


def ids(it):
    return {id(o) for o in it}


class Names(dict):
    """id -> short description of an object of a case, for messages"""

    def __init__(self, g=None, **kw):
        if g is not None:
            for i, o in enumerate(g.nodes):
                self.setdefault(id(o), 'n%d:%s' % (i, g.kinds[i]))
        for k, v in kw.items():
            self[id(v)] = k

    def of(self, o):
        n = self.get(id(o))
        if n is not None:
            return n
        try:
            r = repr(o)[:60] if type(o) in (int, str, type, tuple, list, dict, types.FunctionType, types.CodeType, types.CellType) else ''
        except Exception:
            r = ''
        return '%s@%x %s' % (type(o).__name__, id(o), r)

    def set(self, objs, limit=6):
        l = [self.of(o) for o in objs]
        return '{%s%s}' % (', '.join(sorted(l)[:limit]), ', ... %d' % len(l) if len(l) > limit else '')


def same(got, want, what, names, optional=()):
    """got, want: iterables of objects; compare as identity sets; want may be a dict id -> object"""
    g = {id(o): o for o in got}
    w = want if isinstance(want, dict) else {id(o): o for o in want}
    opt = ids(optional)
    miss = [o for i, o in w.items() if i not in g and i not in opt]
    extra = [o for i, o in g.items() if i not in w and i not in opt]
    if miss or extra:
        raise Violation('%s: missing %s, unexpected %s (%d objects, want %d)' % (what, names.set(miss), names.set(extra), len(g), len(w)))


_hp = None


def hp():
    """A session with its front end initialised"""
    global _hp
    if _hp is None:
        _hp = guppy.hpy()
        _hp.heap()
    return _hp


class rooted:
    """with rooted(hp, container): the session's heap starts at container"""

    def __init__(self, h, root):
        self.h, self.root = h, root

    def __enter__(self):
        self.old = self.h.View.root
        self.h.View.root = self.root
        return self.h

    def __exit__(self, *a):
        self.h.View.root = self.old


def pickset(r, n, lo=0, hi=4):
    return [r.randrange(n) for _ in range(r.randint(lo, hi))]
