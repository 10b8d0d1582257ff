"""P01: bitset operations against an exact integer-set model."""
import operator
from pbt.core import Violation, check, eq, raises
from props.bitmodel import *

SPEC = dict(
    id='P01', quick=300000, thorough=8000000,
    rule='A case is two or three generated integer sets (finite or co-finite, dense/sparse/extreme bit numbers), an operand kind for each '
         '(immutable, complemented, subclass, mutable, multi-segment mutable, list/tuple/dict/set/generator/int) and an operation; '
         'non-trivial: the operands are not both empty and the result was compared element-wise and by membership probes with the model.',
    assumptions=['bit numbers are the C ssize_t range', 'iteration order is not specified and not checked'])

OPS = {'&': operator.and_, '|': operator.or_, '^': operator.xor, '-': operator.sub}
IOPS = {'&': operator.iand, '|': operator.ior, '^': operator.ixor, '-': operator.isub}


# -- binary operators
def gen_bin(r):
    a = gen_val(r)
    b = gen_val(r)
    x = r.random()
    if x < 0.3:   # related operands
        b = [b[0], list(a[1]) if r.chance(0.3) else [y for y in a[1] if r.chance(0.6)] + b[1][:r.randint(0, 4)]]
    return {'a': a, 'b': b, 'ka': gen_kind(r), 'kb': gen_kind(r), 'op': r.choice('&|^-'), 'inplace': r.chance(0.35),
            'same': r.chance(0.04)}


def run_bin(d, st):
    op = d['op']
    ka, kb = d['ka'], d['kb']
    if ka in CONV_KINDS and kb in CONV_KINDS:
        kb = 'imm'
    if ka in ('set', 'int') and op in '&|^-' and kb in ('set', 'int'):
        kb = 'mut'
    if d['inplace'] and ka in CONV_KINDS:
        ka = 'mut'
    a, ma = make(d['a'], ka)
    if d['same'] and ka not in CONV_KINDS:
        b, mb = a, ma
    else:
        b, mb = make(d['b'], kb)
    want = m_op(op, ma, mb)
    st.label('%s %s%s' % (op, 'i' if d['inplace'] else '', 'cpl' if ma[0] or mb[0] else 'fin'))
    st.label('left ' + ka)
    if d['inplace']:
        res = IOPS[op](a, b)
        if ka in MUT_KINDS:
            check(res is a, 'in-place %s= on a mutable bitset returned another object', op)
        else:
            check(is_imm(res), 'in-place %s= on an immutable bitset gave %r', op, type(res))
            observe(a, ma, 'left operand after %s=' % op)
    else:
        res = OPS[op](a, b)
        check(is_imm(res), '%s %s %s gave a %r, want an immutable bitset', ka, op, kb, type(res))
        if ka not in CONV_KINDS:
            observe(a, ma, 'left operand after %s' % op, False)
    if kb not in CONV_KINDS and b is not a:
        observe(b, mb, 'right operand after %s' % op, False)
    observe(res, want, '%r(%s) %s %r(%s)' % (d['a'], ka, op, d['b'], kb))
    st.nontrivial(bool(ma[1] or mb[1]))


# -- comparisons
def gen_cmp(r):
    a = gen_val(r, 10)
    b = gen_val(r, 10)
    x = r.random()
    if x < 0.25:
        b = [b[0], a[1] + b[1][:1]]
    elif x < 0.4:
        b = [b[0], a[1][:-1]]
    elif x < 0.55:
        b = [b[0], list(reversed(a[1]))]
    elif x < 0.65 and a[1]:
        b = [b[0], a[1][1:] + [clamp(a[1][0] + r.pick(-64, 64, 1, -1))]]
    return {'a': a, 'b': b, 'ka': gen_kind(r, False), 'kb': gen_kind(r, False)}


def run_cmp(d, st):
    a, ma = make(d['a'], d['ka'])
    b, mb = make(d['b'], d['kb'])
    le, ge = m_le(ma, mb), m_le(mb, ma)
    want = {'==': le and ge, '!=': not (le and ge), '<=': le, '>=': ge, '<': le and not ge, '>': ge and not le}
    if ma == mb:
        assert le and ge
    got = {'==': a == b, '!=': a != b, '<=': a <= b, '>=': a >= b, '<': a < b, '>': a > b}
    eq(got, want, 'comparisons of %r(%s) and %r(%s)', d['a'], d['ka'], d['b'], d['kb'])
    st.label('eq' if le and ge else 'le' if le else 'ge' if ge else 'incomparable')
    if ma[0] != mb[0]:
        st.label('mixed')
    st.nontrivial(bool(ma[1] or mb[1]))


# -- unary: complement, shift, index, slice, int
def gen_un(r):
    a = gen_val(r, 30)
    sh = r.weighted([(4, r.randint(-200, 200)), (2, r.pick(-64, 64, -128, 128, 0)), (1, r.randint(MIN, MAX)),
                     (2, gen_base(r) + r.randint(-70, 70)), (1, 2 ** r.randint(0, 70)), (1, -2 ** r.randint(0, 70))])
    if a[1] and r.chance(0.3):      # shift exactly to or past the limit
        e = r.choice(a[1])
        sh = r.pick(MAX - e, MAX - e + 1, MIN - e, MIN - e - 1)
    n = r.weighted([(4, r.randint(0, 12)), (1, r.randint(0, 80)), (1, len(set(a[1]))), (0.2, MAX), (0.2, MAX - 1)])
    return {'a': a, 'ka': gen_kind(r, False), 'sh': sh, 'n': n,
            'p': r.list(lambda: clamp(gen_base(r) + r.randint(-3, 3)), 0, 4)}


def run_un(d, st):
    a, m = make(d['a'], d['ka'])
    cpl, s = m
    what = '%r(%s)' % (d['a'], d['ka'])
    observe(a, m, what)
    c = ~a
    check(is_imm(c), '~%s is a %r', what, type(c))
    observe(c, m_inv(m), '~' + what)
    for p in d['p']:
        check((p in a) is m_in(p, m), '%d in %s wrong', p, what)
    # shift
    sh = d['sh']
    if MIN <= sh <= MAX:
        shifted = frozenset(x + sh for x in s)
        if any(not MIN <= x <= MAX for x in shifted):
            raises(OverflowError, operator.lshift, a, sh)
            st.label('shift overflow')
        else:
            t = a << sh
            check(is_imm(t), 'shift gave %r', type(t))
            observe(t, (cpl, shifted), '%s << %d' % (what, sh))
            st.label('shift')
    else:
        raises(OverflowError, operator.lshift, a, sh)
    # index and slices
    srt = sorted(s)
    if cpl:
        raises((IndexError, TypeError), operator.getitem, a, 0)
        raises((IndexError, TypeError), operator.getitem, a, slice(None, 1))
    else:
        if srt:
            eq(a[0], srt[0], 'first index of %s', what)
            eq(a[-1], srt[-1], 'last index of %s', what)
        else:
            raises(IndexError, operator.getitem, a, 0)
            raises(IndexError, operator.getitem, a, -1)
        n = d['n']
        if n > 0:      # [:0] is refused as not implemented
            x = a[:n]
            check(isinstance(x, S.ImmBitSet), 'slice gave %r', type(x))
            observe(x, (False, frozenset(srt[:n])), '%s[:%d]' % (what, n), False)
            observe(a[-n:], (False, frozenset(srt[-n:])), '%s[-%d:]' % (what, n), False)
        observe(a[:], m, what + '[:]', False)
        if 0 < n < len(srt):
            st.label('proper slice')
    # int
    want = None
    if not any(x < 0 or x > 100000 for x in s):
        want = m_int(m)
        got = int(a)
        eq(got, want, 'int(%s)', what)
        eq(S.immbitset(got), S.immbitset(a), 'immbitset(int(x)) of %s', what)
        observe(S.immbitset(got), m, 'immbitset(int(%s))' % what, False)
        st.label('int')
    elif any(x < 0 for x in s):
        raises(OverflowError, int, a)
        st.label('int overflow')
    observe(a, m, 'unchanged ' + what, False)
    st.nontrivial(bool(s))


# -- expression chains: results of operations as operands
def gen_chain(r):
    leaves = r.list(lambda: [gen_val(r, 8), gen_kind(r)], 2, 4)
    steps = r.list(lambda: [r.choice('&|^-&|^-~<'), r.randint(0, 9), r.randint(0, 9), r.randint(-130, 130)], 2, 9)
    return {'leaves': leaves, 'steps': steps}


def run_chain(d, st):
    vals = []
    for v, k in d['leaves']:
        if k in CONV_KINDS:
            k = 'imm'
        vals.append(make(v, k))
    if not vals:
        return
    for op, i, j, sh in d['steps']:
        a, ma = vals[i % len(vals)]
        b, mb = vals[j % len(vals)]
        if op == '~':
            vals.append((~a, m_inv(ma)))
        elif op == '<':
            t = frozenset(x + sh for x in ma[1])
            if any(not MIN <= x <= MAX for x in t):
                raises(OverflowError, operator.lshift, a, sh)
                continue
            vals.append((a << sh, (ma[0], t)))
        else:
            vals.append((OPS[op](a, b), m_op(op, ma, mb)))
    for x, m in vals:
        observe(x, m, 'chain %r' % (d,), False)
    st.nontrivial(any(m[1] for x, m in vals))
    st.label('chain cpl' if any(m[0] for x, m in vals) else 'chain fin')


# -- large sets: many words, several segments
def gen_big(r):
    def spec():
        return [r.randint(-3000, 3000) * r.pick(1, 1, 64), r.pick(1, 2, 3, 7, 63, 64, 65, 129), r.randint(1, 1500), int(r.chance(0.2))]
    return {'a': spec(), 'b': spec(), 'op': r.choice('&|^-'), 'ka': r.pick('imm', 'mut', 'mutseg'), 'kb': r.pick('imm', 'mut', 'mutseg'),
            'inplace': r.chance(0.5), 'n': r.randint(1, 1600)}


def run_big(d, st):
    def mk(sp, k):
        lo, step, n, cpl = sp
        step = max(1, step)
        bits = range(lo, lo + step * max(0, n), step)
        m = (bool(cpl), frozenset(bits))
        x = S.immbitrange(bits.start, bits.stop, step)
        if k == 'mut':
            x = S.mutbitset(x)
        elif k == 'mutseg':
            x = S.mutbitset()
            if hasattr(x, '_splitting_size'):
                x._splitting_size = 16
            for b in bits:
                x.add(b)
        if cpl:
            if k == 'imm':
                x = ~x
            else:
                x ^= ~S.immbitset()
        return x, m
    a, ma = mk(d['a'], d['ka'])
    b, mb = mk(d['b'], d['kb'])
    observe(a, ma, 'big operand %r' % d['a'], False)
    want = m_op(d['op'], ma, mb)
    res = IOPS[d['op']](a, b) if d['inplace'] else OPS[d['op']](a, b)
    observe(res, want, 'big %r' % d)
    observe(b, mb, 'big right operand', False)
    if not want[0]:
        n = max(1, d['n'])
        srt = sorted(want[1])
        observe(res[:n], (False, frozenset(srt[:n])), 'big[:n] %r' % d, False)
        if n:
            observe(res[-n:], (False, frozenset(srt[-n:])), 'big[-n:] %r' % d, False)
    st.nontrivial()
    st.label('big')


FACETS = {'bin': (5, gen_bin, run_bin), 'cmp': (3, gen_cmp, run_cmp), 'un': (3, gen_un, run_un), 'chain': (2, gen_chain, run_chain),
          'big': (0.15, gen_big, run_big)}
