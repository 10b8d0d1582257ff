"""Model of bitsets: (cpl, frozenset) over the machine integers, and generators."""
import sys
from pbt.core import Violation, check, eq, raises
from guppy import sets as S

MAX = sys.maxsize
MIN = -MAX - 1
CPL = type(~S.immbitset([1]))


class SubImm(S.ImmBitSet):
    pass


class SubMut(S.MutBitSet):
    pass


class SubInt(int):
    pass


# ---- generation ------------------------------------------------------------

def gen_base(r):
    return r.weighted([(6, 0), (2, 64 * r.randint(-4, 4)), (2, r.randint(-300, 300)), (1, r.randint(-10 ** 6, 10 ** 6)),
                       (0.6, MAX), (0.6, MIN), (0.5, 2 ** r.randint(5, 62)), (0.5, -2 ** r.randint(5, 62)),
                       (0.4, r.randint(MIN, MAX))])


def clamp(x):
    return min(MAX, max(MIN, x))


def gen_bits(r, maxn=24):
    """list of bit numbers (unsorted, maybe with duplicates)"""
    mode = r.random()
    n = r.weighted([(1, 0), (2, 1), (3, 2), (3, 3), (6, r.randint(2, 8)), (3, r.randint(4, maxn))])
    out = []
    if mode < 0.08:      # full words and runs
        b = gen_base(r) // 64 * 64
        out = [clamp(b + i) for i in range(r.pick(63, 64, 65, 128))]
        if r.chance(0.3):
            out = out[1:]
        return out
    bases = [gen_base(r) for _ in range(r.pick(1, 1, 2, 2, 3))]
    spread = r.weighted([(3, 70), (3, 10), (2, 200), (1, 1000)])
    for _ in range(n):
        b = r.choice(bases)
        out.append(clamp(b + r.randint(-spread, spread)))
    return out


def gen_val(r, maxn=24, pcpl=0.25):
    """JSON value of a set: [cpl, bits]"""
    return [1 if r.chance(pcpl) else 0, gen_bits(r, maxn)]


IMM_KINDS = ['imm', 'imm', 'sub', 'range', 'slice']
MUT_KINDS = ['mut', 'mutsub', 'mutseg', 'mutbuilt']
CONV_KINDS = ['list', 'tuple', 'dict', 'set', 'gen', 'int', 'ilist']


def gen_kind(r, conv=True):
    x = r.random()
    if x < 0.4:
        return r.choice(IMM_KINDS)
    if x < 0.75 or not conv:
        return r.choice(MUT_KINDS)
    return r.choice(CONV_KINDS)


# ---- model -----------------------------------------------------------------

def model(v):
    return (bool(v[0]), frozenset(v[1]))


def m_op(op, a, b):
    (ca, sa), (cb, sb) = a, b
    if op == '&':
        if not ca and not cb:
            return (False, sa & sb)
        if ca and cb:
            return (True, sa | sb)
        return (False, sb - sa) if ca else (False, sa - sb)
    if op == '|':
        return m_inv(m_op('&', m_inv(a), m_inv(b)))
    if op == '-':
        return m_op('&', a, m_inv(b))
    if op == '^':
        return (ca != cb, sa ^ sb)
    raise AssertionError(op)


def m_inv(a):
    return (not a[0], a[1])


def m_le(a, b):
    (ca, sa), (cb, sb) = a, b
    if not ca and not cb:
        return sa <= sb
    if ca and cb:
        return sb <= sa
    if ca:
        return False           # the universe is never enumerated completely
    return not (sa & sb)


def m_in(x, a):
    return (x in a[1]) != a[0]


def m_int(a):
    """int the set denotes, or None when there is none"""
    if any(x < 0 for x in a[1]):
        return None
    n = sum(1 << x for x in a[1])
    return ~n if a[0] else n


# ---- realisation -----------------------------------------------------------

def finite_imm(bits):
    return S.immbitset(list(bits))


def make(v, kind):
    """Build the object denoted by v as a kind; returns (object, model)"""
    cpl, bits = v
    m = model(v)
    if kind in ('list', 'tuple', 'dict', 'set', 'gen', 'ilist'):
        m = (False, m[1])
        if kind == 'list':
            return list(bits), m
        if kind == 'ilist':
            return [SubInt(b) for b in bits], m
        if kind == 'tuple':
            return tuple(bits), m
        if kind == 'dict':
            return dict.fromkeys(bits), m
        if kind == 'set':
            return set(bits), m
        return (b for b in bits), m
    if kind == 'int':
        bits = [b & 4095 if abs(b) > 4095 or b < 0 else b for b in bits]
        m = (bool(cpl), frozenset(bits))
        return m_int(m), m
    if kind in ('imm', 'sub', 'range', 'slice'):
        if kind == 'sub':
            if cpl:
                x = CPL(SubImm(bits))
            else:
                x = SubImm(bits)
            return x, m
        if kind == 'slice':       # a strict slice of a longer set
            bs = sorted(set(bits))
            if 0 < len(bs) < 64 and (not bs or bs[-1] < MAX - 5):
                x = S.immbitset(bs + [bs[-1] + 3 if bs else 7])[:len(bs)]
            else:
                x = S.immbitset(bits)[:]
        elif kind == 'range':      # union of singletons and runs
            bs = sorted(set(bits))
            x = S.immbitset()
            i = 0
            while i < len(bs):
                j = i
                while j + 1 < len(bs) and bs[j + 1] == bs[j] + 1:
                    j += 1
                if bs[j] < MAX:
                    x = x | S.immbitrange(bs[i], bs[j] + 1)
                else:
                    for k in range(i, j + 1):
                        x |= S.immbit(bs[k])
                i = j + 1
        else:
            x = finite_imm(bits)
        return (~x if cpl else x), m
    if kind == 'mut':
        x = S.mutbitset(bits)
    elif kind == 'mutsub':
        x = SubMut(bits)
    elif kind == 'mutseg':
        x = S.mutbitset()
        if hasattr(x, '_splitting_size'):
            x._splitting_size = 4
        for b in bits:
            x.add(b)
    elif kind == 'mutbuilt':     # with cleared fields left behind
        x = S.mutbitset(finite_imm(bits))
        for b in bits[:6]:
            c = b + 64 if b < MAX - 64 else b - 64
            if c not in m[1]:
                x.add(c)
                x.discard(c)
    else:
        raise AssertionError(kind)
    if cpl:
        x ^= ~S.immbitset()
    return x, m


def probes(bits):
    ps = set()
    for b in list(bits)[:40]:
        for d in (-64, -1, 0, 1, 64):
            ps.add(clamp(b + d))
    ps.update((0, -1, 1, MAX, MIN, 63, 64))
    return sorted(ps)


def observe(x, m, what, full=True):
    """x must denote m by every observation"""
    cpl, s = m
    if not isinstance(x, S.BitSet):
        raise Violation('%s: not a bitset: %r' % (what, x))
    if cpl:
        for f in (iter, len):
            try:
                got = f(x)
            except TypeError:
                pass
            else:
                raise Violation('%s: %s() of a complemented set gave %r' % (what, f.__name__, got))
        inner = ~x
        try:
            l = list(inner)
        except TypeError:
            raise Violation('%s: %r: complement not iterable' % (what, x))
    else:
        try:
            l = list(x)
        except TypeError:
            raise Violation('%s: %.300r is complemented, expected finite %.300r' % (what, x, sorted(s)))
        n = len(x)
        if n != len(s):
            raise Violation('%s: len %r, want %r (%.300r)' % (what, n, len(s), x))
    if len(l) != len(set(l)) or set(l) != s:
        raise Violation('%s: elements %.300r want %.300r (complemented=%s)' % (what, sorted(l), sorted(s), cpl))
    b = bool(x)
    if b != (cpl or bool(s)):
        raise Violation('%s: truth value of %.200r is %r' % (what, x, b))
    if full:
        for p in probes(s):
            got = p in x
            if got is not m_in(p, m):
                raise Violation('%s: (%d in x) is %r, x=%.300r' % (what, p, got, x))


def is_imm(x):
    return isinstance(x, (S.ImmBitSet, CPL))
