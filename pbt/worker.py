"""Runs cases in a process of its own.

worker.py run   ID SEED FROM TO STEP DEADLINE OUT      generated cases
worker.py one   ID CASEFILE                            one case (exit 0 held, 1 violated)
worker.py hist  ID SEED FROM TO STEP                   history of cases, same process
worker.py shrink ID CASEFILE OUT                       fork server for shrinking
"""
import importlib
import json
import os
import resource
import signal
import sys
import time

sys.dont_write_bytecode = True
from pbt.core import (Violation, HarnessError, Stats, gen_case, run_case, case_hash, shrink, json_roundtrip)

CPU_LIMIT = 60          # CPU seconds for one case: typical cases take milliseconds


def load(pid):
    mod = importlib.import_module('props.' + pid.lower())
    if hasattr(mod, 'setup'):
        mod.setup()
    return mod


def known_keys(pid):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'known_findings.json')) as f:
        kf = json.load(f)
    return {k['key'] for k in kf['findings'] if k['property'] == pid and k['status'] == 'open'}


def limits(mod):
    lim = mod.SPEC.get('mem', 6 << 30)
    if lim and not os.environ.get('VERIF_ASAN'):
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def arm(sec=CPU_LIMIT):
    signal.setitimer(signal.ITIMER_PROF, sec)


def attempt(mod, case, st, known):
    """None if held, else (msg); known findings are counted"""
    st._nontrivial = False
    arm(mod.SPEC.get('cpu_limit', CPU_LIMIT))
    try:
        run_case(mod, case, st)
    except Violation as v:
        if v.key is not None and v.key in known:
            st.known[v.key] = st.known.get(v.key, 0) + 1
            return None
        return v.msg
    return None


def do_run(pid, seed, lo, hi, step, deadline, out):
    fd = os.open(out + '.progress', os.O_RDWR | os.O_CREAT, 0o600)
    mod = load(pid)
    known = known_keys(pid)
    limits(mod)
    st = Stats()
    viol = None
    i = lo
    t0 = time.time()
    while i < hi:
        if time.time() > deadline:
            break
        os.pwrite(fd, b'%12d' % i, 0)
        case = json_roundtrip(gen_case(mod, seed, i))
        st.label('facet:' + case['f'])
        msg = attempt(mod, case, st, known)
        st.evaluations += 1
        if msg is not None:
            viol = {'index': i, 'case': case, 'msg': msg}
            break
        if st._nontrivial:
            st.nt.add(case_hash(case))
            if len(st.samples) < 2 and len(json.dumps(case)) < 1500:
                st.samples.append(case)
        i += step
    arm(0)
    if viol is None and hasattr(mod, 'finish'):
        msg = None
        try:
            mod.finish(st)
        except Violation as v:
            viol = {'index': i, 'case': None, 'msg': v.msg}
    os.pwrite(fd, b'%12d' % -1, 0)
    res = {'evaluations': st.evaluations, 'nt': sorted(st.nt), 'labels': st.labels, 'known': st.known,
           'samples': st.samples, 'violation': viol, 'next': i, 'wall': time.time() - t0}
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)
    sys.stdout.flush()
    os._exit(0)


def do_one(pid, path):
    mod = load(pid)
    limits(mod)
    known = known_keys(pid)
    with open(path) as f:
        rep = json.load(f)
    st = Stats()
    cases = rep['cases'] if 'cases' in rep else [rep['case']]
    keys = set()
    for case in cases:
        try:
            arm()
            run_case(mod, case, st)
        except Violation as v:
            if v.key is not None and v.key in known:
                print('KNOWN ' + v.key, flush=True)
                keys.add(v.key)
                continue
            print(v.msg, flush=True)
            os._exit(1)
    os._exit(0)


def do_hist(pid, seed, lo, hi, step):
    mod = load(pid)
    limits(mod)
    known = known_keys(pid)
    st = Stats()
    i = lo
    while i <= hi:
        msg = attempt(mod, json_roundtrip(gen_case(mod, seed, i)), st, known)
        if msg is not None:
            print(msg, flush=True)
            os._exit(1)
        i += step
    os._exit(0)


def do_gen(pid, seed, i, out):
    mod = load(pid)
    with open(out, 'w') as f:
        json.dump(gen_case(mod, seed, i), f)
    os._exit(0)


def do_shrink(pid, path, out):
    mod = load(pid)
    known = known_keys(pid)
    limits(mod)
    with open(path) as f:
        rep = json.load(f)
    case = rep['case']
    want_hang = rep.get('how') == 'hang'

    def outcome(c):
        r, w = os.pipe()
        sys.stdout.flush()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
            try:
                arm(5 if want_hang else 20)
                signal.alarm(30)
                try:
                    run_case(mod, c, Stats())
                except Violation as v:
                    if v.key is None or v.key not in known:
                        os.write(w, v.where.encode() + b'\0' + v.msg.encode('utf8', 'backslashreplace')[:4000])
                        os._exit(1)
                os._exit(0)
            except BaseException:
                os._exit(9)
        os.close(w)
        data = b''
        while 1:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, status = os.waitpid(pid_, 0)
        if os.WIFSIGNALED(status):
            s = os.WTERMSIG(status)
            if s in (signal.SIGPROF, signal.SIGALRM):
                return 'hang', 'does not terminate'
            if s == signal.SIGKILL:
                return None, ''
            return 'crash', 'killed by signal %d' % s
        if b'\0' in data:
            where, _, m = data.partition(b'\0')
            return 'violation ' + where.decode(), m.decode('utf8', 'replace')
        if os.WEXITSTATUS(status) not in (0, 1, 9):
            return 'crash', 'exit status %d' % os.WEXITSTATUS(status)
        return None, ''

    how, msg = outcome(case)
    res = {'reproduced': how is not None, 'how': how, 'msg': msg, 'case': case, 'attempts': 0}
    if how is not None:
        last = [msg]

        def fails(d):
            h, m = outcome({'f': case['f'], 'd': d})
            if h == how:
                last[0] = m
                return True
            return False
        d, n = shrink(case['d'], fails, 40 if how == 'hang' else 3000, time.time, time.time() + rep.get('budget', 45), bool(mod.SPEC.get('shrink_str')))
        res.update(case={'f': case['f'], 'd': d}, msg=last[0], attempts=n)
    with open(out, 'w') as f:
        json.dump(res, f)
    os._exit(0)


def main():
    a = sys.argv
    if a[1] == 'run':
        do_run(a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), float(a[7]), a[8])
    elif a[1] == 'one':
        do_one(a[2], a[3])
    elif a[1] == 'hist':
        do_hist(a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]))
    elif a[1] == 'gen':
        do_gen(a[2], int(a[3]), int(a[4]), a[5])
    elif a[1] == 'shrink':
        do_shrink(a[2], a[3], a[4])


if __name__ == '__main__':
    main()
