"""P02: histories over several bitsets that share storage."""
import operator
from pbt.core import Violation, check, eq, raises
from props.bitmodel import *

SPEC = dict(
    id='P02', quick=80000, thorough=2500000,
    rule='A case is a history of 8-40 operations over up to eight named bitsets: creation, copies immutable<->mutable, pickling, in-place '
         'operators, element operations, pops, clear, aliasing and dropping; after every step every live bitset is compared with the model. '
         'Non-trivial: a mutable bitset was changed while another live bitset had been copied from or into it.',
    assumptions=['a failing iterable operand of |= and -= may have been applied up to the failing element, as for the built-in set'])

NREG = 8
BINOPS = ['&', '|', '^', '-']
IOPS = {'&': operator.iand, '|': operator.ior, '^': operator.ixor, '-': operator.isub}
OPS = {'&': operator.and_, '|': operator.or_, '^': operator.xor, '-': operator.sub}

OPTABLE = [(3, 'new'), (3, 'newmut'), (4, 'mutof'), (4, 'immof'), (2, 'mutcopy'), (2, 'inv'), (6, 'iop'), (4, 'iopv'), (3, 'bin'),
           (5, 'add'), (4, 'discard'), (2, 'append'), (2, 'remove'), (2, 'tas'), (2, 'tac'), (3, 'pop'), (1, 'clear'), (2, 'drop'),
           (1.5, 'alias'), (1, 'look'), (1, 'hash'), (1, 'iter'), (1, 'bad'), (0.7, 'run'), (0.5, 'split'), (1, 'cplmut'), (1, 'multi')]


def gen(r):
    base = gen_base(r) if r.chance(0.3) else r.pick(0, 0, 64, -100)
    spread = r.pick(5, 70, 200, 1000)

    def bit():
        return clamp(base + r.randint(-spread, spread))
    steps = []
    seg = r.chance(0.5)
    for _ in range(r.randint(8, 40)):
        op = r.weighted(OPTABLE)
        s = [op, r.randint(0, NREG - 1), r.randint(0, NREG - 1)]
        if op in ('new', 'newmut', 'iopv', 'multi'):
            s.append(r.list(bit, 0, r.pick(3, 10, 40)))
            s.append(r.choice('&|^-') if op == 'iopv' else int(r.chance(0.2)))
            s.append(r.pick('list', 'tuple', 'dict', 'set', 'gen', 'int'))
        elif op in ('iop', 'bin'):
            s.append(r.choice(['&', '|', '^', '-']))
        elif op in ('add', 'discard', 'append', 'remove', 'tas', 'tac'):
            s.append(bit())
        elif op == 'run':
            s += [bit(), r.pick(1, 3, 64, 65), r.randint(1, 120)]
        elif op == 'pop':
            s.append(r.pick(-1, 0))
        elif op == 'bad':
            s += [r.choice(['&', '|', '^', '-']), r.list(bit, 0, 4), r.randint(0, 3)]
        steps.append(s)
    return {'seg': seg, 'steps': steps}


class Ent:
    """A bitset and its model; for immutable ones the model never changes."""

    def __init__(self, obj, m, mut):
        self.obj, self.m, self.mut = obj, m, mut
        self.hash = None
        self.shares = False


class FailIter:
    def __init__(self, bits, exc):
        self.bits, self.exc = bits, exc

    def __iter__(self):
        for b in self.bits:
            yield b
        raise self.exc


def look(reg, s):
    seen = set()
    for k, e in reg.items():
        if id(e) in seen:
            continue
        seen.add(id(e))
        observe(e.obj, e.m, 'register %d after %r' % (k, s), False)
        if e.hash is not None:
            eq(hash(e.obj), e.hash, 'hash')


def run(d, st):
    reg = {}
    changed_shared = False

    def put(i, obj, m, mut, shares=False):
        e = Ent(obj, m, mut)
        e.shares = shares
        reg[i] = e

    def newmut(bits=()):
        x = S.mutbitset(bits)
        if d['seg'] and hasattr(x, '_splitting_size'):
            x = S.mutbitset()
            x._splitting_size = 2
            for b in bits:
                x.add(b)
        return x

    for s in d['steps']:
        op, i, j = s[0], s[1] % NREG, s[2] % NREG
        a = reg.get(i)
        b = reg.get(j)
        st.label(op)
        if op == 'new':
            m = (bool(s[4]), frozenset(s[3]))
            x = S.immbitset(s[3])
            put(i, ~x if s[4] else x, m, False)
            del x
        elif op == 'newmut':
            put(i, newmut(s[3]), (False, frozenset(s[3])), True)
        elif op == 'run':
            bits = [x for x in range(s[3], s[3] + max(1, s[4]) * max(0, s[5]), max(1, s[4])) if MIN <= x <= MAX]
            put(i, newmut(bits), (False, frozenset(bits)), True)
        elif op == 'multi':      # many words: several segments
            bits = [clamp(x * 64 + 1) if abs(x) < 2 ** 50 else x for x in s[3]]
            x = newmut(bits)
            m = (False, frozenset(bits))
            if s[4]:
                x ^= ~S.immbitset()
                m = m_inv(m)
            put(i, x, m, True)
            del x
        elif op == 'split':
            if a and a.mut and hasattr(a.obj, '_splitting_size'):
                a.obj._splitting_size = 2 + j
        elif op == 'drop':
            reg.pop(i, None)
            del a, b
            continue
        elif a is None:
            continue
        elif op == 'alias':
            reg[j] = a
        elif op == 'mutof':
            x = S.mutbitset(a.obj)
            check(x is not a.obj, 'mutbitset(x) is x')
            if d['seg'] and hasattr(x, '_splitting_size'):
                x._splitting_size = 2
            put(j, x, a.m, True, True)
            a.shares = True
            del x
        elif op == 'mutcopy':
            x = a.obj.mutcopy()
            check(isinstance(x, S.MutBitSet) and x is not a.obj, 'mutcopy gave %r', type(x))
            put(j, x, a.m, True, True)
            a.shares = True
            del x
        elif op == 'immof':
            x = S.immbitset(a.obj)
            check(is_imm(x), 'immbitset() gave %r', type(x))
            put(j, x, a.m, False, True)
            a.shares = True
            del x
        elif op == 'inv':
            x = ~a.obj
            check(is_imm(x), '~x is %r', type(x))
            put(j, x, m_inv(a.m), False, True)
            a.shares = True
            del x
        elif op == 'look':
            observe(a.obj, a.m, 'look', True)
            if not a.m[0] and a.m[1]:
                srt = sorted(a.m[1])
                eq((a.obj[0], a.obj[-1]), (srt[0], srt[-1]), 'ends')
                eq(frozenset(a.obj[:2]), frozenset(srt[:2]), '[:2]')
                eq(frozenset(a.obj[-2:]), frozenset(srt[-2:]), '[-2:]')
        elif op == 'hash':
            if not a.mut:
                h = hash(a.obj)
                check(a.hash is None or a.hash == h, 'hash of an immutable bitset changed')
                a.hash = h
            else:
                raises(TypeError, hash, a.obj)
        elif op == 'iter':
            # an iterator keeps showing the value of an immutable bitset
            if not a.mut and not a.m[0]:
                it = iter(a.obj)
                got = []
                for _ in range(len(a.m[1]) // 2):
                    got.append(next(it))
                reg.pop(j, None)
                got += list(it)
                eq(sorted(got), sorted(a.m[1]), 'iteration')
                a = reg.get(i)
                if a is None:
                    continue
        elif op == 'cplmut':
            if a.mut:
                x = a.obj
                x ^= ~S.immbitset()
                check(x is a.obj, '^= gave another object')
                a.m = m_inv(a.m)
                changed_shared |= a.shares
                del x
        elif op in ('iop', 'bin', 'iopv', 'bad'):
            if op == 'iopv':
                kind = s[5]
                arg, mb = make([0, s[3]], kind)
                o = s[4]
            elif op == 'bad':
                o = s[3]
                bits, how = s[4], s[5]
                arg = [list(bits) + ['x'], tuple(bits) + (2 ** 70,), FailIter(bits, KeyError('k')), 1.5][how % 4]
                before = a.m
                raises((TypeError, OverflowError, KeyError), IOPS[o], a.obj, arg)
                # all-or-nothing, or the prefix of the operand was applied
                ok = [before] + [m_op(o, before, (False, frozenset(bits[:k + 1]))) for k in range(len(bits))]
                if not a.mut or how % 4 == 3:
                    ok = [before]
                for m in ok:
                    try:
                        observe(a.obj, m, 'after refused %s=' % o, False)
                    except Violation as v:
                        last = v
                        continue
                    if m != before:
                        changed_shared |= a.shares
                    a.m = m
                    break
                else:
                    raise last
                continue
            else:
                if b is None:
                    continue
                arg, mb, o = b.obj, b.m, s[3]
            want = m_op(o, a.m, mb)
            if op == 'bin':
                x = OPS[o](a.obj, arg)
                check(is_imm(x), 'binary %s gave %r', o, type(x))
                put((i + j) % NREG, x, want, False, True)
                del x
            else:
                x = IOPS[o](a.obj, arg)
                if a.mut:
                    check(x is a.obj, 'in-place %s= gave another object', o)
                    a.m = want
                    changed_shared |= a.shares
                else:
                    check(is_imm(x), 'in-place %s= of an immutable gave %r', o, type(x))
                    put(i, x, want, False, True)
                del x
            del arg
        elif not a.mut:
            check(not hasattr(a.obj, op), 'an immutable bitset has %s', op)
        else:
            cpl, bits = a.m
            had = None
            if op in ('add', 'discard', 'append', 'remove', 'tas', 'tac'):
                e = s[3]
                had = m_in(e, a.m)
                if op in ('add', 'append', 'tas'):
                    want = (cpl, bits - {e} if cpl else bits | {e})
                else:
                    want = (cpl, bits | {e} if cpl else bits - {e})
            if op in ('add', 'discard'):
                eq(getattr(a.obj, op)(e), None, op)
                a.m = want
            elif op in ('tas', 'tac'):
                got = getattr(a.obj, op)(e)
                check(bool(got) is had, '%s(%d) gave %r, bit was %s', op, e, got, 'in' if had else 'out')
                a.m = want
            elif op == 'append':
                if had:
                    raises(ValueError, a.obj.append, e)
                else:
                    a.obj.append(e)
                    a.m = want
            elif op == 'remove':
                if not had:
                    raises(ValueError, a.obj.remove, e)
                else:
                    a.obj.remove(e)
                    a.m = want
            elif op == 'pop':
                if cpl or not bits:
                    raises(ValueError, a.obj.pop, s[3] and -1)
                else:
                    x = max(bits) if s[3] else min(bits)
                    got = a.obj.pop(-1 if s[3] else 0) if s[3] == 0 or len(bits) % 2 else a.obj.pop()
                    eq(got, x, 'pop(%d)', s[3])
                    a.m = (False, bits - {x})
            elif op == 'clear':
                a.obj.clear()
                a.m = (False, frozenset())
            changed_shared |= a.shares
        look(reg, s)
        a = b = None
    for k in reg:
        observe(reg[k].obj, reg[k].m, 'register %d at the end' % k, True)
    st.nontrivial(changed_shared)


FACETS = {'hist': (1, gen, run)}
