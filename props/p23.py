"""P23: interpreter roots: threads and frames are seen as they are."""
import _thread
import builtins
import codecs
import contextvars
import ctypes
import gc
import queue
import sys
import threading
import time
import warnings
import weakref
from props.hpy import HD, heapyc
from guppy.heapy.heapyc import HeapView, RootState
from pbt.core import Violation, check, eq, raises, HarnessError

SPEC = dict(
    id='P23', quick=1600, thorough=40000, stuck=300,
    rule='(history) A case is a history of up to 25 steps over up to 5 threads: a thread starts, calls deeper through one of 40 kinds of frames (function, generator, coroutine, class body, executed text, method, finalizer, callback of a sort, handler of an exception ...), each holding an object nothing else holds, '
         'returns or ends; threads without any frame, codec registrations and sub-interpreters come and go; the main thread itself stands in up to 8 such frames. At each audit, by the main thread or another one, the attributes of the root are compared with the frames the interpreter reports: exactly those names, each giving '
         'the object itself, each frame with that relation and no other; the objects reachable from the root contain every object held, with a limit frame none held by later frames only; unknown names are refused. At the end every object is freed. '
         '(busy) The same questions are asked while threads start, run, recurse and end freely: every name answers with a frame or is refused, and objects of the asking thread are seen. Non-trivial: an audit with at least 2 threads and 6 frames.',
    assumptions=['objects held only by the value stack of an executing frame, and what such objects hold, may be missed', 'with a limit frame, frames of other threads may be left out', 'only the calling interpreter is described'])

hv = HeapView(RootState, HD)


class Plant:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a):
        return None


class Thr:
    pass


class W:
    pass


SRC = r'''
def loop(t):
    while 1:
        t.out.put(1)
        op = t.inbox.get()
        if op == 'ret':
            return
        if op == 'audit':
            audit(t)
        else:
            op(t)
        op = None

def k_local(t):
    x = t.stock.pop()
    loop(t)

def k_arg(t):
    f_arg(t, t.stock.pop())

def f_arg(t, x):
    loop(t)

def k_kw(t):
    f_kw(t, x=t.stock.pop())

def f_kw(t, *, x):
    loop(t)

def k_star(t):
    f_star(t, t.stock.pop())

def f_star(t, *a):
    loop(t)

def k_kws(t):
    f_kws(t, x=t.stock.pop())

def f_kws(t, **k):
    loop(t)

def k_cell(t):
    x = t.stock.pop()
    def f():
        return x
    loop(t)

def k_argcell(t):
    f_argcell(t, t.stock.pop())

def f_argcell(t, x):
    def f():
        return x
    loop(t)

def k_free(t):
    f_free(t)()

def f_free(t):
    x = t.stock.pop()
    def f():
        loop(t)
        return x
    return f

def k_gen(t):
    def g():
        x = t.stock.pop()
        loop(t)
        yield
    for _ in g():
        pass

def k_genc(t):
    def g():
        x = t.stock.pop()
        loop(t)
        yield
    list(g())

def k_yf(t):
    def g():
        x = t.stock.pop()
        yield
        loop(t)
    def h():
        yield from g()
    list(h())

def k_genexp(t):
    list(loop(t) for x in [t.stock.pop()])

def k_throw(t):
    def g():
        x = t.stock.pop()
        try:
            yield
        except KeyError:
            loop(t)
            yield
    i = g()
    next(i)
    i.throw(KeyError)

def k_close(t):
    def g():
        x = t.stock.pop()
        try:
            yield
        finally:
            loop(t)
    i = g()
    next(i)
    i.close()

def k_coro(t):
    async def c():
        x = t.stock.pop()
        loop(t)
    try:
        c().send(None)
    except StopIteration:
        pass

def k_await(t):
    async def c():
        x = t.stock.pop()
        loop(t)
    async def d():
        await c()
    try:
        d().send(None)
    except StopIteration:
        pass

def k_agen(t):
    async def c():
        x = t.stock.pop()
        loop(t)
        yield
    try:
        c().asend(None).send(None)
    except StopIteration:
        pass

def k_class(t):
    class C:
        x = t.stock.pop()
        loop(t)

def k_exec(t):
    exec(EX, {'t': t, 'loop': loop})

def k_exec2(t):
    exec(EX, {'loop': loop}, {'t': t})

def k_eval(t):
    eval(EV, {'t': t, 'loop': loop})

def k_lambda(t):
    (lambda x: loop(t))(t.stock.pop())

def k_comp(t):
    [loop(t) for x in [t.stock.pop()]]

def k_for(t):
    for x in (t.stock.pop(),):
        loop(t)

def k_excas(t):
    try:
        raise Err(t.stock.pop())
    except Err as e:
        loop(t)

def k_exc(t):
    try:
        raise Err(t.stock.pop())
    except Err:
        loop(t)

def k_tb(t):
    try:
        f_raise(t)
    except Err:
        loop(t)

def f_raise(t):
    x = t.stock.pop()
    raise Err

def k_context(t):
    try:
        try:
            raise Err(t.stock.pop())
        except Err:
            raise KeyError
    except KeyError:
        loop(t)

def k_sort(t):
    sorted([t.stock.pop()], key=lambda x: loop(t) or 0)

def k_map(t):
    list(map(lambda x: loop(t), [t.stock.pop()]))

def k_max(t):
    max([1, 2], key=lambda i, x=t.stock.pop(): i == 1 and loop(t) or 0)

def k_obj(t):
    Obj(t.stock.pop()).run(t)

def k_call(t):
    Obj(t.stock.pop())(t)

def k_init(t):
    Init(t, t.stock.pop())

def k_prop(t):
    Obj(t.stock.pop(), t).prop

def k_eq(t):
    Obj(t.stock.pop(), t) == 1

def k_hash(t):
    {Obj(t.stock.pop(), t)}

def k_iter(t):
    for _ in Obj(t.stock.pop(), t):
        pass

def k_enter(t):
    with Obj(t.stock.pop(), t):
        pass

def k_del(t):
    o = Del()
    o.t = t
    o.x = t.stock.pop()
    o = None

def k_wref(t):
    o = Obj(None)
    r = ref(o, lambda r, x=t.stock.pop(): loop(t))
    o = None

def k_tls(t):
    TLS.x = t.stock.pop()
    try:
        loop(t)
    finally:
        del TLS.x

def k_ctx(t):
    VAR.set(t.stock.pop())
    loop(t)
    VAR.set(None)

def ctx2(t):
    VAR2.set(t.stock.pop())
    loop(t)

def k_ctxrun(t):
    copy_context().run(ctx2, t)

def k_trace(t):
    settrace(t.stock.pop())
    try:
        loop(t)
    finally:
        settrace(None)

def k_profile(t):
    setprofile(t.stock.pop())
    try:
        loop(t)
    finally:
        setprofile(None)

def k_hook(t):
    set_asyncgen_hooks(firstiter=t.stock.pop())
    try:
        loop(t)
    finally:
        set_asyncgen_hooks(firstiter=None)

def k_hook2(t):
    set_asyncgen_hooks(finalizer=t.stock.pop())
    try:
        loop(t)
    finally:
        set_asyncgen_hooks(finalizer=None)

def k_rec(t, n=None):
    if n is None:
        n = t.depth
        x = t.stock.pop()
    if n:
        k_rec(t, n - 1)
    else:
        loop(t)

def k_recg(t):
    def g(n):
        if n:
            for i in g(n - 1):
                yield i
        else:
            x = t.stock.pop()
            loop(t)
            yield
    for _ in g(t.depth):
        pass

class Obj:
    def __init__(self, x, t=None):
        self.x = x
        self.t = t
    def run(self, t):
        loop(t)
    def __call__(self, t):
        loop(t)
    @property
    def prop(self):
        loop(self.t)
    def __eq__(self, o):
        loop(self.t)
        return True
    def __hash__(self):
        loop(self.t)
        return 1
    def __iter__(self):
        loop(self.t)
        return iter(())
    def __enter__(self):
        loop(self.t)
    def __exit__(self, *a):
        pass

class Init:
    def __init__(self, t, x):
        loop(t)

class Del:
    def __del__(self):
        loop(self.t)

class Err(Exception):
    pass
'''

ENV = {'__name__': 'p23env'}
exec(SRC, ENV)
ENV.update(EX=compile('x = t.stock.pop()\nloop(t)\n', 'ex', 'exec'), EV=compile('(lambda x: loop(t))(t.stock.pop())', 'ev', 'eval'), TLS=threading.local(), VAR=contextvars.ContextVar('p23var'), VAR2=contextvars.ContextVar('p23var2'),
           copy_context=contextvars.copy_context, settrace=sys.settrace, setprofile=sys.setprofile, set_asyncgen_hooks=sys.set_asyncgen_hooks, ref=weakref.ref)
KINDS = sorted(k[2:] for k in ENV if k.startswith('k_'))
GENLIKE = {'gen', 'genc', 'yf', 'genexp', 'throw', 'close', 'coro', 'await', 'agen', 'recg'}     # the frames below have exceptions of their own
EXC = {'exc', 'excas', 'tb', 'context'}
EXCLUSIVE = {'trace': 'c_traceobj', 'profile': 'c_profileobj', 'hook': 'async_gen_firstiter', 'hook2': 'async_gen_finalizer'}
LIMITED = {'local', 'arg', 'kw', 'cell', 'gen', 'class', 'lambda', 'for', 'free', 'exec', 'rec', 'recg', 'coro', 'yf'}   # held by frames only
IS = ['modules', 'modules_by_index', 'importlib', 'import_func', 'sysdict', 'builtins', 'codec_search_path', 'codec_search_cache', 'codec_error_registry', 'dict', 'sysdict_copy', 'builtins_copy',
      'before_forkers', 'after_forkers_parent', 'after_forkers_child', 'audit_hooks']
TS = ['c_profileobj', 'c_traceobj', 'current_exception', 'exc_value', 'dict', 'async_exc', 'async_gen_firstiter', 'async_gen_finalizer', 'context']


def gen_k(r):
    return [r.choice(KINDS), r.pick(0, 1, 2, 5, 20, 60)]


def gen_h(r):
    st = []
    for _ in range(r.randint(1, 25)):
        st.append([r.weighted([(3, 'start'), (8, 'call'), (3, 'ret'), (1.5, 'end'), (4, 'audit'), (1, 'taudit'), (.7, 'bare'), (.4, 'unbare'), (.4, 'codec'), (.3, 'interp'), (.5, 'async'), (.5, 'limit')]), r.randrange(8)] + gen_k(r))
    return {'main': [gen_k(r) for _ in range(r.pick(0, 0, 1, 2, 4, 8))], 's': st}


def wait(cond, what):
    for i in range(2000):
        if cond():
            return
        time.sleep(.0005 if i < 200 else .005)
    raise HarnessError('not in time: ' + what)


def run_history(d, st):
    w = W()
    w.st = st
    w.threads = []        # live Thr, the main one first
    w.bare = []           # (ident, lock)
    w.refs = {}           # n -> weakref of Plant
    w.n = 0
    w.codecs = []
    w.interps = []
    w.async_ = None
    w.error = None
    w.nt = False
    ENV['audit'] = lambda t: guarded(w, t)
    m = Thr()
    m.stock = []
    m.stack = []          # [kind, n] of the open calls
    m.ident = _thread.get_ident()
    m.todo = [list(k) for k in d['main'][:8]]
    m.main = True
    w.threads.append(m)

    def mainloop(t):
        # as loop, for the thread that runs the history
        if m.todo:
            k, depth = m.todo.pop(0)
            k = k if k in KINDS else 'local'
            if any(e[0] == k for e in m.stack) and (k in EXCLUSIVE or k in ('tls', 'ctx', 'ctxrun')):
                k = 'local'
            push(w, m, k, depth)
            ENV['k_' + k](m)
        else:
            history(w, d['s'])
    m.loop = mainloop
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('error', ResourceWarning)
            LOOPS[0](m)
    finally:
        sys.settrace(None)
        sys.setprofile(None)
        stop(w)
    m.stack = []
    # everything is let go
    for i in range(3):
        gc.collect()
        left = [n for n, r in w.refs.items() if r() is not None]
        if not left:
            break
        time.sleep(.01)
    if left:
        import os
        if os.environ.get('DBG23'):
            o = w.refs[left[0]]()
            for r in gc.get_referrers(o):
                print('REF', type(r), str(r)[:300], file=sys.stderr)
                for q in gc.get_referrers(r):
                    print('   REF', type(q), str(q)[:300], file=sys.stderr)
        raise Violation('objects %r are still held after all threads have ended' % left[:5])
    st.nontrivial(w.nt)


def entry(t):
    if t.main:
        t.loop(t)
    else:
        THREADLOOP(t)


THREADLOOP = ENV['loop']
LOOPS = [entry]
ENV['loop'] = entry


def push(w, t, k, depth):
    n = w.n
    w.n += 1
    p = Plant(n)
    w.refs[n] = weakref.ref(p)
    t.stock.append(p)
    t.depth = max(0, min(depth, 150))
    t.stack.append([k, n])
    w.st.label('kind ' + k)


def body(t):
    try:
        THREADLOOP(t)
    except BaseException as e:
        t.error = e
    t.out.put(2)


def start(w):
    t = Thr()
    t.stock, t.stack, t.main, t.error = [], [], False, None
    t.inbox, t.out = queue.SimpleQueue(), queue.SimpleQueue()
    t.ident = _thread.start_new_thread(body, (t,))
    t.out.get(timeout=20)
    w.threads.append(t)


def ret(w, t):
    t.stack.pop()
    t.inbox.put('ret')
    if t.out.get(timeout=20) != 1:
        raise HarnessError('thread: %r' % t.error)


def end(w, t):
    while t.stack:
        ret(w, t)
    t.inbox.put('ret')
    t.out.get(timeout=20)
    w.threads.remove(t)
    i = t.ident
    wait(lambda: i not in sys._current_frames(), 'end of a thread')
    time.sleep(.001)


def stop(w):
    for t in list(w.threads):
        if not t.main:
            try:
                end(w, t)
            except queue.Empty:
                pass
    for i, l in w.bare:
        l.release()
    for c in w.codecs:
        codecs.unregister(c)
    w.codecs = []
    for i in w.interps:
        import _xxsubinterpreters
        _xxsubinterpreters.destroy(i)
    w.interps = []


def history(w, steps):
    for i, (op, a, k, depth) in enumerate(steps[:40]):
        ths = w.threads[1:]
        t = ths[a % len(ths)] if ths else None
        w.where = 'step %d (%s)' % (i, op)
        if op == 'start':
            if len(ths) < 5:
                start(w)
        elif op == 'call':
            if t is None or len(t.stack) >= 12:
                continue
            k = k if k in KINDS else 'local'
            if any(e[0] == k for e in t.stack) and (k in EXCLUSIVE or k in ('tls', 'ctx', 'ctxrun')):
                k = 'local'
            push(w, t, k, depth)
            t.inbox.put(ENV['k_' + k])
            if t.out.get(timeout=20) != 1:
                raise HarnessError('thread: %r' % t.error)
        elif op == 'ret':
            if t and t.stack:
                ret(w, t)
        elif op == 'end':
            if t:
                end(w, t)
        elif op == 'bare':
            if len(w.bare) < 3:
                l = _thread.allocate_lock()
                l.acquire()
                w.bare.append((_thread.start_new_thread(l.acquire, ()), l))
                time.sleep(.001)
        elif op == 'unbare':
            if w.bare:
                i, l = w.bare.pop()
                l.release()
                time.sleep(.001)
        elif op == 'codec':
            if len(w.codecs) < 2:
                p = Plant(w.n)
                w.refs[w.n] = weakref.ref(p)
                w.n += 1
                codecs.register(p)
                w.codecs.append(p)
                del p
        elif op == 'interp':
            import _xxsubinterpreters as si
            if w.interps:
                si.destroy(w.interps.pop())
            else:
                w.interps.append(si.create())
        elif op == 'async' and t:
            w.async_ = t.ident
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(KeyError))
            try:
                eq(getattr(RootState, 'i0_t%d_async_exc' % t.ident), KeyError, 'pending exception')
                eq(hv.relate(RootState, KeyError)[1], ('i0_t%d_async_exc' % t.ident,), 'relation to the pending exception')
            finally:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), None)
        elif op == 'audit':
            audit(w)
        elif op == 'limit':
            audit(w, limit=a)
        elif op == 'taudit' and t:
            w.error = None
            t.inbox.put('audit')
            t.out.get(timeout=60)
            if w.error is not None:
                raise w.error
    w.where = 'at the end'
    audit(w)


def guarded(w, t):
    try:
        audit(w)
    except BaseException as e:
        w.error = e.with_traceback(None)


def audit(w, limit=None):
    """of all that is seen; called with the frame of the caller below it"""
    me = _thread.get_ident()
    where = w.where
    # the frames, as the interpreter has them
    want = {}
    nframes = 0
    cur = sys._current_frames()
    for tid in cur:
        l = []
        f = cur[tid]
        while f is not None:
            l.append(f)
            f = f.f_back
        l.reverse()
        nframes += len(l)
        for i, f in enumerate(l):
            want['i0_t%d_f%d' % (tid, i)] = f
    tids = list(cur) + [i for i, _ in w.bare]
    del cur, l, f
    if len(tids) >= 2 and nframes >= 6:
        w.nt = True
    w.st.label('threads %d' % len(tids))
    exp = sorted(list(want) + ['i0_' + a for a in IS] + ['i0_t%d_%s' % (i, a) for i in tids for a in TS])
    for i in range(60):
        names = dir(RootState)
        if names == exp:
            break
        time.sleep(.005)        # a thread without frames is just starting or ending
    if names != exp:
        s = lambda l: [short(x, w) for x in l][:5]
        raise Violation('%s: names of the root: missing %r, unexpected %r, twice %r' % (where, s(sorted(set(exp) - set(names))), s(sorted(set(names) - set(exp))), s(sorted({x for x in names if names.count(x) > 1}))))
    # each frame by its name, and its relation
    for n in want:
        got = getattr(RootState, n)
        if got is not want[n]:
            raise Violation('%s: %s is %r, expected %r' % (where, short(n, w), got, want[n]))
        rel = hv.relate(RootState, want[n])
        if rel != ((), (n,)) + ((),) * 9:
            raise Violation('%s: relation to frame %s: %r' % (where, short(n, w), rel))
    got = rel = None
    # other attributes
    for a, v in (('modules', sys.modules), ('sysdict', sys.__dict__), ('builtins', builtins.__dict__), ('importlib', sys.modules['_frozen_importlib']), ('import_func', builtins.__import__)):
        g = getattr(RootState, 'i0_' + a)
        check(g is v, '%s: i0_%s is %s', where, a, type(g))
        check('i0_' + a in hv.relate(RootState, v)[1], '%s: no relation to %s', where, a)
    g = getattr(RootState, 'i0_codec_search_path')
    for p in w.codecs:
        check(any(x is p for x in g), '%s: codec function is not in the search path', where)
    for n in names:
        v = getattr(RootState, n)
        if v is not None:
            r = hv.relate(RootState, v)
            if n not in r[1]:
                raise Violation('%s: no relation %s to its value: %r' % (where, short(n, w), r))
            for other in r[1]:
                check(getattr(RootState, other) is v, '%s: relation %s', where, other)
    v = g = p = None
    # what threads hold directly
    for t in w.threads:
        pre = 'i0_t%d_' % t.ident
        ex = None
        for k, n in t.stack:
            if k in GENLIKE:
                break
            if k in EXC:
                ex = n
        else:
            n = None
        v = getattr(RootState, pre + 'exc_value')
        if ex is None:
            check(v is None, '%s: exc_value of a thread not handling an exception: %r', where, v)
        else:
            check(isinstance(v, (ENV['Err'], KeyError)), '%s: exc_value of a thread handling one: %r', where, v)
            if v.args:
                eq(v.args[0].n, ex, '%s: exception handled', where)
        if t.ident != me:
            eq(getattr(RootState, pre + 'current_exception'), None, '%s: current exception', where)
        eq(getattr(RootState, pre + 'async_exc'), None, '%s: pending exception', where)
        for k, a in EXCLUSIVE.items():
            pl = [n for kk, n in t.stack if kk == k]
            v = getattr(RootState, pre + a)
            if (v.n if type(v) is Plant else v) != (pl[-1] if pl else None):
                raise Violation('%s: %s%s is %r' % (where, 'i0_t_', a, v))
        v = None
    # unknown names
    for n in ('i0_t%d_f%d' % (me, 99999), 'i0_t%d_f-1' % me, 'i0_t%d_f%d' % (tids[-1], 88888), 'i0_t%d_f0x' % me, 'i0_t%d_f' % me, 'i0_t%d_nope' % me, 'i0_t%d_' % me, 'i0_t1_f0', 'i0_t1_dict', 'i1_modules', 'i-1_modules',
              'i%d_modules' % (1 + len(w.interps)), 'i0_', 'i0_frame', 'modules', '', 'i', 't', 'i0', 't%d' % me, 'i0_modules_', 'I0_modules', '\u00e9', 'i0_t%d' % me, 'i99999999999999999999_modules'):
        try:
            v = getattr(RootState, n)
        except AttributeError:
            continue
        raise Violation('%s: name %r gives %r' % (where, n, v))
    for i, _ in w.bare:
        for k in (0, 1):
            try:
                v = getattr(RootState, 'i0_t%d_f%d' % (i, k))
            except AttributeError:
                continue
            raise Violation('%s: thread without frames has frame %r' % (where, v))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        v = getattr(RootState, 't%d_dict' % me)
        check(v is getattr(RootState, 'i0_t%d_dict' % me), '%s: old name', where)
        eq([x.category for x in ws], [DeprecationWarning], '%s: warning for the old name', where)
    v = x = ws = None
    # what is reachable
    held = {n for t in w.threads for _, n in t.stack} | {p.n for p in w.codecs}
    opt = set()      # handled by a generator that only a value stack holds
    for t in w.threads:
        for i, (k, n) in enumerate(t.stack):
            if k in EXC and k != 'excas' and any(kk in GENLIKE for kk, _ in t.stack[:i]):
                opt.add(n)
    mine = sorted(n for n in want if n.startswith('i0_t%d_' % me))
    frames = {n: want[n] for n in mine}
    want = p = t = None
    if limit is None:
        frames = f = None
        see(w, held, held - opt, where)
    else:
        # a limit frame of this thread
        i = limit % len(frames)
        f = frames['i0_t%d_f%d' % (me, i)]
        below = set()
        m = [t for t in w.threads if t.ident == me][0]
        g = f
        chain = set()
        while g is not None:
            chain.add(id(g))
            g = g.f_back
        need, not_ = set(), set()
        loc = {}
        for n in frames:
            fl = frames[n]
            if fl.f_code.co_name not in ('audit', 'history', 'see', 'mainloop'):
                for x in list(fl.f_locals.values()):
                    if type(x) is Plant:
                        loc[x.n] = id(fl) in chain
                    x = None
        hv.limitframe = f
        for n in frames:
            r = hv.relate(RootState, frames[n])
            if frames[n] is f:
                check(r[1] == (n,), '%s: relation to the limit frame %r', where, r)
            else:
                check(not any(r), '%s: relation to frame %s beside the limit frame: %r', where, n, r)
        fl = g = frames = r = None
        f = None
        try:
            check(hv.limitframe is not None, 'limit frame')
            for k, n in m.stack:
                if k in LIMITED and n in loc:
                    (need if loc[n] else not_).add(n)
            if any(k in EXC or k == 'throw' for k, n in m.stack):
                not_.clear()        # frames of a traceback
            m = t = None
            see(w, held, need, '%s: limit frame %d of %d' % (where, i, len(mine)), not_)
        finally:
            hv.limitframe = None
        w.st.label('limit')


def short(n, w):
    for i, t in enumerate(w.threads):
        n = n.replace(str(t.ident), 'T%d' % i)
    for i, t in enumerate(w.bare):
        n = n.replace(str(t[0]), 'B%d' % i)
    return n


def see(w, held, need, where, absent=()):
    got = set()
    h = hv.heap()
    for x in h:
        if type(x) is Plant:
            got.add(x.n)
    x = h = None
    kind = {n: k for t in w.threads for k, n in t.stack}
    if need - got:
        raise Violation('%s: not reachable: %r' % (where, [(n, kind.get(n, 'codec')) for n in sorted(need - got)][:5]))
    if got & set(absent):
        raise Violation('%s: reachable from later frames only: %r' % (where, [(n, kind.get(n)) for n in sorted(got & set(absent))][:5]))
    if got - held:
        raise Violation('%s: objects %r are no longer held' % (where, sorted(got - held)[:5]))


# ---------------------------------------------------------------- busy threads

def gen_b(r):
    return {'t': [[r.pick(1, 2, 5, 30), r.pick(0, 1, 3), r.randrange(4)] for _ in range(r.randint(1, 4))], 'n': r.randint(3, 25), 'q': [r.randrange(6) for _ in range(6)], 'sw': r.pick(1, 2, 3)}


def run_busy(d, st):
    stop_ = []
    count = [0]

    def rec(n):
        return rec(n - 1) if n > 0 else count.__setitem__(0, count[0] + 1)

    def gen(n):
        if n > 0:
            yield from gen(n - 1)
        yield n

    def short_life(n):
        rec(n)

    def work(n, kids, kind):
        while not stop_:
            if kind == 0:
                rec(n)
            elif kind == 1:
                for _ in gen(n):
                    pass
            elif kind == 2:
                try:
                    rec(n)
                    raise KeyError
                except KeyError:
                    rec(2)
            else:
                for _ in range(kids):
                    _thread.start_new_thread(short_life, (n,))
                    time.sleep(0)
                time.sleep(.0005)
    old = sys.getswitchinterval()
    ths = [threading.Thread(target=work, args=(n % 100, k % 4, kind % 4), daemon=True) for n, k, kind in d['t'][:4]]
    mine = Plant(-1)
    me = _thread.get_ident()
    sys.setswitchinterval(10 ** -min(6, max(3, d['sw'] + 3)))
    try:
        for t in ths:
            t.start()
        for i in range(max(1, min(40, d['n']))):
            q = d['q'][i % len(d['q'])] if d['q'] else 0
            names = dir(RootState)
            idx = names[(i * 7) % len(names)]
            if q < 2:
                for n in names:
                    if '_f' in n and n.rsplit('_', 1)[1][:1] == 'f' and n.rsplit('_', 1)[1][1:].isdigit():
                        try:
                            f = getattr(RootState, n)
                        except AttributeError:
                            continue
                        check(type(f) is FRAME, 'name %s gives %r', n, f)
                        f = None
            elif q == 2:
                f = sys._getframe()
                k = 0
                while f is not None:
                    f = f.f_back
                    k += 1
                check(getattr(RootState, 'i0_t%d_f%d' % (me, k - 1)) is sys._getframe(), 'frame asking')
                eq(len([n for n in names if n.startswith('i0_t%d_f' % me) and n[-1].isdigit()]), k, 'frames of the thread asking')
            elif q == 3:
                f = sys._getframe()
                r = hv.relate(RootState, f)
                check(len(r[1]) == 1 and getattr(RootState, r[1][0]) is f, 'relation to the frame asking: %r', r)
                f = None
            elif q == 4:
                for f in list(sys._current_frames().values()):
                    r = hv.relate(RootState, f)
                    check(len(r[1]) <= 1, 'relation to a frame: %r', r)
                f = None
            else:
                if i < 8:
                    h = hv.heap()
                    check(mine in h, 'local variable is not seen')
                    h = None
        st.nontrivial(count[0] > 10)
    finally:
        stop_.append(1)
        sys.setswitchinterval(old)
        for t in ths:
            t.join(20)
        wait(lambda: len(sys._current_frames()) == 1, 'threads')
        time.sleep(.001)


FRAME = type(sys._getframe())
FACETS = {
    'history': (10, gen_h, run_history),
    'busy': (1, gen_b, run_busy),
}


def setup():
    gc.disable()
    sys.setrecursionlimit(5000)
