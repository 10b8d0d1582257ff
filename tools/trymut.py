#!/usr/bin/env python3
"""trymut.py PATCH ID... : run checks against a scratch copy of /repo with a patch applied.
PATCH may be revert:<commit>.  Nothing of /repo is changed."""
import os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
patch, ids = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
try:
    w = os.path.join(d, 'repo')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('build', '*.so', '__pycache__'))
    if patch.startswith('revert:'):
        c = patch[7:]
        p = subprocess.run(['git', '-C', '/repo', 'diff', c, c + '^'], capture_output=True, text=True, check=True).stdout
    else:
        p = open(patch).read()
    subprocess.run(['git', 'apply', '-'], cwd=w, input=p, text=True, check=True)
    env = dict(os.environ, VERIF_REPO=w)
    for i in ids:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), i], env=env, cwd=HERE, capture_output=True, text=True)
        lines = (r.stdout + r.stderr).strip().splitlines()
        print('%-40s %s rc=%d %s' % (os.path.basename(os.path.dirname(patch)) or patch, i, r.returncode,
                                     (lines[0] if r.returncode == 1 else lines[-1] if lines else '')[:150]), flush=True)
finally:
    shutil.rmtree(d)
