"""Generated-case engine: data shared by the worker (runs cases against the code
under test) and the driver (check.py).  Standard library only, so that a worker
process keeps a small heap of its own."""
import hashlib
import json
import os
import random


class Violation(Exception):
    """The code under test broke the property.

    key names the root cause when it is a listed known finding."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key
        self.where = ''


class HarnessError(Exception):
    """The check itself is broken (exit code 3, never a violation)."""


def check(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def eq(got, want, what, *args):
    if got != want:
        raise Violation('%s: got %.400r, want %.400r' % (what % args if args else what, got, want))


def raises(excs, f, *args, **kw):
    """f(*args) must raise one of excs; returns the exception."""
    try:
        r = f(*args, **kw)
    except excs as e:
        return e
    raise Violation('expected %s from %r%.200r, got %.200r' % (excs, f, args, r))


class Gen(random.Random):
    """Seeded generator with a few combinators; every random choice goes through it."""

    def chance(self, p):
        return self.random() < p

    def pick(self, *alts):
        return self.choice(alts)

    def weighted(self, table):
        """table: sequence of (weight, value)"""
        t = sum(w for w, _ in table)
        x = self.random() * t
        for w, v in table:
            x -= w
            if x < 0:
                return v
        return table[-1][1]

    def small(self, hi=8, lo=0):
        """skewed to small values, up to hi"""
        if self.random() < 0.75:
            return self.randint(lo, max(lo, min(hi, lo + 3)))
        return self.randint(lo, hi)

    def list(self, f, lo, hi):
        return [f() for _ in range(self.randint(lo, hi))]


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nt = set()
        self.labels = {}
        self.known = {}
        self.samples = []
        self._nontrivial = False
        self.keep_labels = True

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True


def case_hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def gen_case(mod, seed, i):
    r = Gen('%s:%d:%d' % (mod.SPEC['id'], seed, i))
    only = os.environ.get('VERIF_FACET')  # (for development)
    facets = {only: mod.FACETS[only]} if only else mod.FACETS
    name = r.weighted([(w, n) for n, (w, g, f) in facets.items()])
    return {'f': name, 'd': facets[name][1](r)}


def run_case(mod, case, st):
    """Run one case. Raises Violation (also for any exception that escapes)."""
    f = mod.FACETS[case['f']][2]
    try:
        f(case['d'], st)
    except (Violation, HarnessError, KeyboardInterrupt):
        raise
    except MemoryError:
        raise
    except BaseException as e:  # an exception the oracle did not allow
        import traceback
        tb = traceback.format_exc(limit=-6)
        fr = traceback.extract_tb(e.__traceback__)[-1]
        v = Violation('unexpected %s: %.300s\n%s' % (type(e).__name__, e, tb))
        v.where = '%s@%s:%s' % (type(e).__name__, os.path.basename(fr.filename), fr.lineno)
        raise v


def json_roundtrip(case):
    return json.loads(json.dumps(case))


# --- shrinking ------------------------------------------------------------

def _paths(x, pre=()):
    """All positions of containers/scalars in a JSON value, outermost first."""
    yield pre, x
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from _paths(y, pre + (i,))
    elif isinstance(x, dict):
        for k in x:
            yield from _paths(x[k], pre + (k,))


def _set(x, path, v):
    if not path:
        return v
    if isinstance(x, list):
        y = list(x)
    else:
        y = dict(x)
    y[path[0]] = _set(y[path[0]], path[1:], v)
    return y


def _size(x):
    n = 0
    for _, y in _paths(x):
        n += 1
        if isinstance(y, bool) or y is None:
            pass
        elif isinstance(y, int):
            n += min(abs(y).bit_length(), 200) + (y < 0)
        elif isinstance(y, str):
            n += len(y)
    return n


def candidates(d, strings):
    """Smaller variants of a JSON value, biggest cuts first."""
    lists = [(p, x) for p, x in _paths(d) if isinstance(x, list) and x]
    lists.sort(key=lambda t: (-len(t[1]), len(t[0])))
    for p, x in lists:
        n = len(x)
        c = n
        while c >= 1:
            for i in range(0, n, c):
                yield _set(d, p, x[:i] + x[i + c:])
            c //= 2
    for p, x in list(_paths(d)):
        if isinstance(x, bool):
            if x:
                yield _set(d, p, False)
        elif isinstance(x, int):
            for v in (0, 1, x // 2, x - 1 if x > 0 else x + 1, -x if x < 0 else x):
                if v != x and (abs(v) < abs(x) or (v >= 0 > x)):
                    yield _set(d, p, v)
        elif isinstance(x, str) and x and strings:
            n = len(x)
            c = n
            while c >= 1:
                for i in range(0, n, c):
                    yield _set(d, p, x[:i] + x[i + c:])
                c //= 2
        elif isinstance(x, list):
            # hoist: replace a list by one of its list elements
            for y in x:
                if isinstance(y, list) and _size(y) < _size(x):
                    yield _set(d, p, y)


def shrink(d, fails, budget, clock, deadline, strings=False):
    """Greedy structural shrinking; fails(candidate)->bool."""
    tried = set()
    n = 0
    progress = True
    while progress and n < budget and clock() < deadline:
        progress = False
        for c in candidates(d, strings):
            if n >= budget or clock() >= deadline:
                break
            k = json.dumps(c, sort_keys=True)
            if k in tried or _size(c) >= _size(d):
                continue
            tried.add(k)
            n += 1
            if fails(c):
                d = c
                progress = True
                break
    return d, n
