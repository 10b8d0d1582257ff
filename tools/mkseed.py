#!/usr/bin/env python3
"""mkseed.py SPEC.py... : make and confirm planted bugs.

A spec file defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python source),
NEEDS, BREAKS.  The change is confirmed in a scratch copy of /repo (builds, stable
tests pass, demo passes before and fails after) and written to /verif/seeded/ID."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
# Run with cwd = the built repository.
D=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 60 "$PY" "$D/demo.py"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def scripts(w, d):
    """The build and test scripts, pointed at the copy."""
    v = os.path.join(d, 'vp')
    os.mkdir(v)
    for n in os.listdir('/opt/vp'):
        if os.path.isfile('/opt/vp/' + n):
            t = open('/opt/vp/' + n).read()
            open(os.path.join(v, n), 'w').write(t.replace('/repo', w).replace('/opt/vp', v))

def build(w):
    return sh('bash %s/../vp/build.sh' % w, cwd=w)

def main(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        w = os.path.join(d, 'repo')
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git'), symlinks=True)
        scripts(w, d)
        sh('git init -q . && git add -Af src guppy && git -c user.name=x -c user.email=x@x commit -qm x', cwd=w)
        dd = os.path.join(d, 'demo'); os.mkdir(dd)
        open(os.path.join(dd, 'demo.py'), 'w').write(ns['DEMO'])
        open(os.path.join(dd, 'demo.sh'), 'w').write(DEMO_SH)
        r = build(w)
        assert r.returncode == 0, r.stderr[-2000:]
        r0 = sh('sh %s/demo.sh' % dd, cwd=w)
        print(ns['ID'], 'clean demo rc', r0.returncode, (r0.stdout + r0.stderr)[-500:] if r0.returncode else '')
        sh('git add -Af src guppy; git -c user.name=x -c user.email=x@x commit -qm y', cwd=w)
        for f, old, new in ns['EDITS']:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh("git diff -- src guppy ':!*.so'", cwd=w).stdout
        r = build(w)
        if r.returncode:
            print('BUILD FAILED', r.stderr[-2000:]); return 1
        if 'warning' in r.stderr:
            print(r.stderr[-1500:])
        r1 = sh('sh %s/demo.sh' % dd, cwd=w)
        print(ns['ID'], 'patched demo rc', r1.returncode, (r1.stdout + r1.stderr)[-300:])
        t = tests(w, d)
        print(ns['ID'], 'stable tests failing:', t)
        if r0.returncode == 0 and r1.returncode != 0 and not t:
            out = os.path.join(HERE, 'seeded', ns['ID'])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            open(os.path.join(out, 'demo.py'), 'w').write(ns['DEMO'])
            open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            a = sh('git apply --check %s/patch.diff' % out, cwd='/repo')
            print(ns['ID'], 'KEPT', a.stderr)
            return 0
        print(ns['ID'], 'REJECTED')
        return 1
    finally:
        shutil.rmtree(d)

def tests(w, d):
    ids = json.load(open('/opt/vp/BASELINE.json'))['stable']
    out = os.path.join(d, 'out.json')
    r = sh('bash %s/vp/test.sh %s' % (d, out), cwd=w)
    if not os.path.exists(out):
        return ['no result: ' + (r.stdout + r.stderr)[-500:]]
    res = json.load(open(out))
    passed = set(res.get('passed', []))
    return [t for t in ids if t not in passed][:10]

if __name__ == '__main__':
    sys.exit(max([main(s) for s in sys.argv[1:]]))
