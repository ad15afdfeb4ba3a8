#!/usr/bin/env python3
"""Make a planted bug directory from a spec file (python dict literal):
id, property, file, edits [(old, new), ...], needs, breaks, demo (python source).
Works in a scratch clone; with --test also runs the repository's tests there."""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
REPO = os.environ.get('SEED_REPO', '/repo')
DEMO = '''#!/bin/bash
# run in /repo; exits 0 when the behaviour described in meta.json holds
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, text=True, capture_output=True, **k)


def main():
    spec = ast.literal_eval(open(sys.argv[1]).read())
    for s in spec if isinstance(spec, list) else [spec]:
        one(s, '--test' in sys.argv)


def one(s, test):
    d = os.path.join(SEEDED, s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seedwork-')
    try:
        sh('git', '-c', 'filter.lfs.required=false', '-c', 'filter.lfs.process=', '-c', 'filter.lfs.smudge=cat', 'clone', '-q', REPO, w + '/repo')
        r = w + '/repo'
        for f, old, new in [(e if len(e) == 3 else (s['file'],) + tuple(e)) for e in s['edits']]:
            p = os.path.join(r, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git', '-C', r, '-c', 'filter.lfs.required=false', '-c', 'filter.lfs.process=', '-c', 'filter.lfs.clean=cat', 'diff', '--', 'skwdro').stdout
        assert diff
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        env = dict(os.environ, PYTHONPATH=r)
        bad = sh('bash', os.path.join(d, 'demo.sh'), cwd=r, env=env)
        good = sh('bash', os.path.join(d, 'demo.sh'), cwd=REPO, env=dict(os.environ, PYTHONPATH=REPO))
        print(s['id'], 'demo: unchanged', good.returncode, 'patched', bad.returncode,
              '' if good.returncode == 0 and bad.returncode else 'WRONG ' + good.stderr[-800:] + bad.stderr[-300:])
        if test:
            t = open('/opt/vp/test.sh').read().replace('cd /repo', f'cd {r}')
            open(w + '/test.sh', 'w').write(t)
            sh('bash', w + '/test.sh', w + '/out.json')
            base = json.load(open('/opt/vp/BASELINE.json'))
            got = json.load(open(w + '/out.json'))
            st = base['stable']
            res = set(got['passed'])
            fails = [k for k in st if k not in res]
            print('   stable tests not passing:', len(fails), fails[:5])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    main()
