#!/usr/bin/env python3
"""Driver of the checks.

check.py ID [--tier quick|thorough] [--seed N] [--n CASES]   decide a property
check.py ID --replay FILE                                    run one replay file
check.py --setup                                             check the toolchain

Exit 0: held on everything explored; 1: violated (VIOLATION line); other: error of the check.
"""
import argparse
import fcntl
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
BUILD = os.path.join(HERE, '.build')
OUT = os.path.join(HERE, 'out')
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP}


class CheckError(Exception):
    pass


def tree_hash(asan):
    h = hashlib.sha256(b'asan' if asan else b'std')
    for top in ('src', 'guppy', 'setup.py', 'README.md'):
        p = os.path.join(REPO, top)
        files = []
        if os.path.isdir(p):
            for dp, dn, fn in os.walk(p):
                dn[:] = sorted(d for d in dn if d != '__pycache__')
                files += [os.path.join(dp, f) for f in sorted(fn) if not f.endswith(('.so', '.pyc'))]
        elif os.path.exists(p):
            files = [p]
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fo:
                h.update(fo.read())
            h.update(b'\0')
    return h.hexdigest()[:20]


def build(asan=False):
    """Build /repo's working tree out of tree; returns the directory to import from."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_hash(asan)
        d = os.path.join(BUILD, key)
        lib = os.path.join(d, 'lib')
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(d)
            return lib
        shutil.rmtree(d, ignore_errors=True)
        old = sorted((x for x in (os.path.join(BUILD, n) for n in os.listdir(BUILD)) if os.path.isdir(x)),
                     key=os.path.getmtime)
        for x in old[:-5]:
            shutil.rmtree(x, ignore_errors=True)
        os.makedirs(d)
        env = dict(os.environ, CFLAGS='-g -O2 -fwrapv -Wall -UNDEBUG', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONNOUSERSITE='1', LC_ALL='C.UTF-8', PYTHONWARNINGS='ignore')
        for v in ('PYTHONPATH', 'PYTHONHOME'):
            env.pop(v, None)
        if asan:
            env['CFLAGS'] = ('-g -O1 -fno-omit-frame-pointer -fwrapv -UNDEBUG -fsanitize=address,bounds,shift,'
                             'signed-integer-overflow,unreachable,null,object-size,bool,enum -fno-sanitize-recover=null,bounds,object-size')
            env['CFLAGS'] = '-g -O1 -fno-omit-frame-pointer -fwrapv -UNDEBUG -fsanitize=address'
            env['LDFLAGS'] = '-fsanitize=address'
        # setup.py is run from a scratch copy so that nothing is written to REPO
        src = os.path.join(d, 's')
        os.makedirs(src)
        for n in ('src', 'guppy'):
            shutil.copytree(os.path.join(REPO, n), os.path.join(src, n),
                            ignore=shutil.ignore_patterns('*.so', '__pycache__'))
        for n in ('setup.py', 'README.md', 'LICENSE', 'MANIFEST.in', 'pyproject.toml', 'setup.cfg'):
            if os.path.exists(os.path.join(REPO, n)):
                shutil.copy(os.path.join(REPO, n), src)
        r = subprocess.run([PY, 'setup.py', '-q', 'build', '-j', '4', '--build-base', os.path.join(d, 'b'),
                            '--build-lib', lib], cwd=src, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError('build failed:\n' + r.stdout[-4000:])
        shutil.rmtree(src)
        shutil.rmtree(os.path.join(d, 'b'), ignore_errors=True)
        open(os.path.join(d, 'ok'), 'w').close()
        return lib


def read_spec(pid):
    """The SPEC dict of a property module, without importing the code under test."""
    import ast
    with open(os.path.join(HERE, 'props', pid.lower() + '.py')) as f:
        tree = ast.parse(f.read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'SPEC':
            return eval(compile(ast.Expression(n.value), 'SPEC', 'eval'), {'dict': dict})
    raise CheckError('no SPEC in ' + pid)


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = read_spec(pid)
        self.asan = bool(self.spec.get('asan'))
        self.lib = build(self.asan)
        self.dir = os.path.join(OUT, '%s.%d' % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') and k != 'LD_PRELOAD'}
        env.update(PYTHONPATH=self.lib + ':' + HERE, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONNOUSERSITE='1', LC_ALL='C.UTF-8', PYTHONWARNINGS='ignore', VERIF_LIB=self.lib,
                   VERIF_SCRATCH=self.dir)
        for k, v in self.spec.get('env', {}).items():
            env[k] = v
        if self.asan:
            so = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
            env.update(LD_PRELOAD=so, VERIF_ASAN='1', PYTHONMALLOC='malloc',
                       ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:'
                       'detect_stack_use_after_return=0:quarantine_size_mb=64')
        self.env = env

    def cmd(self, *a):
        return [PY, '-S', '-X', 'faulthandler', '-m', 'pbt.worker'] + [str(x) for x in a]

    def call(self, *a, timeout=None):
        return subprocess.run(self.cmd(*a), env=self.env, cwd=self.dir, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)

    def write(self, name, obj):
        p = os.path.join(self.dir, name)
        with open(p, 'w') as f:
            json.dump(obj, f)
        return p

    # -- regression cases and known findings
    def regress(self):
        p = os.path.join(HERE, 'regress', self.pid + '.json')
        cases = json.load(open(p)) if os.path.exists(p) else []
        kf = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
        n = 0
        for c in cases:
            n += 1
            f = self.write('regress.json', {'case': c['case']})
            r = self.call('one', self.pid, f, timeout=300)
            if r.returncode:
                msg = r.stdout[-1500:]
                if r.returncode not in (0, 1) and r.returncode >= 0:
                    raise CheckError('regression case ended with status %s\n%s' % (r.returncode, msg))
                return n, {'case': c['case'], 'msg': msg, 'how': 'regression case: ' + c.get('why', '')}
        for k in kf:
            if k['property'] != self.pid or k['status'] != 'open':
                continue
            n += 1
            f = self.write('known.json', {'case': k['case']})
            r = self.call('one', self.pid, f, timeout=300)
            if 'KNOWN ' + k['key'] in r.stdout:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
            elif r.returncode in (1,) or r.returncode < 0:
                if r.returncode < 0 and k.get('crash'):
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                else:
                    return n, {'case': k['case'], 'msg': r.stdout[-1500:], 'how': 'witness of a known finding fails differently'}
            elif r.returncode == 0:
                print('note: known finding %s no longer shows' % k['key'])
            else:
                raise CheckError('known finding case ended with status %s\n%s' % (r.returncode, r.stdout[-1500:]))
        return n, None

    # -- generated cases
    def search(self, n, wall):
        W = min(self.spec.get('workers', 8), max(1, n))
        deadline = time.time() + wall
        procs = []
        for w in range(W):
            out = os.path.join(self.dir, 'w%d' % w)
            log = open(out + '.log', 'w')
            env = dict(self.env)
            p = subprocess.Popen(self.cmd('run', self.pid, self.seed, w, n, W, deadline, out), env=env,
                                 cwd=self.dir, stdout=log, stderr=subprocess.STDOUT)
            procs.append([w, p, out, log, None, time.time()])
        live = list(procs)
        while live:
            time.sleep(0.05)
            for t in list(live):
                w, p, out, log, last, since = t
                rc = p.poll()
                if rc is not None:
                    live.remove(t)
                    continue
                cur = self.progress(out)
                if cur != last:
                    t[4], t[5] = cur, time.time()
                elif time.time() - since > self.spec.get('stuck', 150):
                    p.send_signal(signal.SIGALRM)
                    t[5] = time.time()
        results, bad = [], []
        for w, p, out, log, _, _ in procs:
            log.close()
            rc = p.returncode
            if rc == 0 and os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r['violation']:
                    v = r['violation']
                    v.update(how='violation', worker=w, W=W)
                    bad.append(v)
                continue
            idx = self.progress(out)
            tail = open(out + '.log', errors='replace').read()[-6000:]
            if rc < 0 and -rc in CRASH_SIGNALS or (self.asan and 'AddressSanitizer' in tail):
                bad.append({'index': idx, 'msg': 'process killed by signal %d\n%s' % (-rc, tail), 'how': 'crash', 'worker': w, 'W': W})
            elif rc < 0 and -rc in (signal.SIGPROF, signal.SIGALRM):
                bad.append({'index': idx, 'msg': 'case does not terminate\n' + tail, 'how': 'hang', 'worker': w, 'W': W})
            else:
                raise CheckError('worker %d ended with %s at case %s\n%s' % (w, rc, idx, tail))
        return results, bad

    def progress(self, out):
        try:
            with open(out + '.progress', 'rb') as f:
                return int(f.read(12) or b'-2')
        except (OSError, ValueError):
            return -2

    # -- minimise and confirm
    def confirm(self, v):
        """Returns a replay object or None when the failure does not reproduce."""
        case = v.get('case')
        if case is None and v['index'] >= 0:
            out = os.path.join(self.dir, 'gen.json')
            self.call('gen', self.pid, self.seed, v['index'], out)
            if os.path.exists(out):
                case = json.load(open(out))
                os.unlink(out)
        if case is not None:
            f = self.write('shrink.json', {'case': case, 'how': v['how'], 'budget': 45})
            out = os.path.join(self.dir, 'shrunk.json')
            if os.path.exists(out):
                os.unlink(out)
            try:
                self.call('shrink', self.pid, f, out, timeout=300)
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(out):
                r = json.load(open(out))
                if r['reproduced']:
                    # confirm in a fresh process
                    f = self.write('conf.json', {'case': r['case']})
                    for c in (r['case'], case):
                        f = self.write('conf.json', {'case': c})
                        rc = self.one(f)
                        if rc is not None:
                            return {'property': self.pid, 'case': c, 'how': r['how'], 'msg': rc or r['msg'],
                                    'shrink_attempts': r['attempts'], 'seed': self.seed, 'index': v['index']}
        # a history of earlier cases in the same process
        if v['index'] >= 0:
            W = v['W']
            h = {'seed': self.seed, 'from': v['worker'], 'to': v['index'], 'step': W}
            # shortest suffix of the history that fails
            n = (v['index'] - v['worker']) // W
            for back in (1, 4, 20, 100, n):
                if back > n:
                    continue
                h['from'] = v['index'] - back * W
                m = self.hist(h)
                if m is not None:
                    return {'property': self.pid, 'history': h, 'how': v['how'], 'msg': m or v['msg'], 'seed': self.seed}
        return None

    def one(self, f):
        try:
            r = self.call('one', self.pid, f, timeout=200)
        except subprocess.TimeoutExpired:
            return 'does not terminate'
        if r.returncode == 1:
            return r.stdout[-3000:]
        if r.returncode < 0 or 'AddressSanitizer' in r.stdout:
            return 'process ended with status %d\n%s' % (r.returncode, r.stdout[-3000:])
        return None

    def hist(self, h):
        try:
            r = self.call('hist', self.pid, h['seed'], h['from'], h['to'], h['step'], timeout=300)
        except subprocess.TimeoutExpired:
            return 'does not terminate'
        if r.returncode == 1:
            return r.stdout[-3000:]
        if r.returncode < 0 or 'AddressSanitizer' in r.stdout:
            return 'process ended with status %d\n%s' % (r.returncode, r.stdout[-3000:])
        return None

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def replay(pid, path, seed):
    rep = json.load(open(path))
    R = Runner(pid, 'quick', seed)
    try:
        if 'history' in rep:
            m = R.hist(rep['history'])
        else:
            m = R.one(R.write('case.json', {'case': rep['case']}))
        if m is None:
            print('replay: property %s holds on %s' % (pid, path))
            return 0
        print(m)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    finally:
        R.cleanup()


def decide(pid, tier, seed, n=None):
    t0 = time.time()
    R = Runner(pid, tier, seed)
    try:
        spec = R.spec
        if n is None:
            n = spec[tier]
        viol = None
        nreg, bad = R.regress()
        replay_obj = None
        results = []
        unconfirmed = 0
        if bad:
            replay_obj = {'property': pid, 'case': bad['case'], 'msg': bad['msg'], 'how': bad['how'], 'seed': seed}
        else:
            wall = spec.get('wall', 240) if tier == 'quick' else spec.get('wall_thorough', 3600)
            results, bads = R.search(n, wall)
            bads.sort(key=lambda v: v['index'])
            for v in bads[:3]:
                replay_obj = R.confirm(v)
                if replay_obj:
                    break
                unconfirmed += 1
            if bads and not replay_obj:
                v = bads[0]
                if v['how'] == 'crash':
                    replay_obj = {'property': pid, 'history': {'seed': seed, 'from': v['worker'], 'to': v['index'], 'step': v['W']},
                                  'how': 'crash', 'msg': 'crash, not reproduced again: ' + v['msg'], 'seed': seed}
                else:
                    raise CheckError('failure does not reproduce: case %s: %s' % (v['index'], v['msg'][:2000]))
        nt = set()
        labels = {}
        samples = []
        ev = nreg
        known = {}
        for r in results:
            nt.update(r['nt'])
            ev += r['evaluations']
            for k, c in r['labels'].items():
                labels[k] = labels.get(k, 0) + c
            for k, c in r['known'].items():
                known[k] = known.get(k, 0) + c
            samples += r['samples']
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        if not samples:
            if replay_obj is not None:
                samples = [replay_obj.get('case') or replay_obj.get('history')]
        evd = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
               'coverage': {'evaluations': ev, 'distinct_nontrivial': len(nt), 'rule': spec['rule'],
                            'samples': samples[:6], 'distribution': dict(sorted(labels.items())),
                            'regression_cases': nreg, 'known_finding_hits': known},
               'assumptions': spec.get('assumptions', []),
               'wall_s': round(time.time() - t0, 2), 'violations': 1 if replay_obj else 0}
        p = os.path.join(HERE, 'evidence', pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(evd, f, indent=1)
            f.write('\n')
        os.rename(p + '.tmp', p)
        if replay_obj:
            d = os.path.join(OUT, 'replay')
            os.makedirs(d, exist_ok=True)
            h = hashlib.sha256(json.dumps(replay_obj, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(d, '%s-%s.json' % (pid, h))
            with open(path, 'w') as f:
                json.dump(replay_obj, f, indent=1)
                f.write('\n')
            print('%s: %s' % (replay_obj['how'], replay_obj['msg'][:3000]))
            if 'case' in replay_obj:
                print('case: %s' % json.dumps(replay_obj['case'])[:3000])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        if ev == 0 or not nt:
            raise CheckError('nothing non-trivial was explored')
        print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (pid, ev, len(nt), time.time() - t0))
        return 0
    finally:
        R.cleanup()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--n', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
    try:
        if a.setup:
            build()
            print('setup ok')
            return 0
        if a.replay:
            return replay(a.id, a.replay, seed)
        return decide(a.id, a.tier, seed, a.n)
    except CheckError as e:
        print('check error: %s' % e, file=sys.stderr)
        return 3


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
