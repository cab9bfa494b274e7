"""mkseed.py NAME: (re)creates seeded/NAME/patch.diff from seeded/NAME/edit.py
style definitions in tools/seeds.py and confirms it in a scratch copy: applies,
compiles, stable tests pass, demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds import SEEDS

SH = '''#!/bin/bash
# run with cwd = repository root, after the build
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def main(name):
    s = SEEDS[name]
    out = os.path.join(HERE, 'seeded', name)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    open(os.path.join(out, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    json.dump(dict(property=s['property'], needs=s['needs'],
                   what_it_breaks=s['breaks']),
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    T = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        R = os.path.join(T, 'repo')
        sh('cp -a /repo %s' % R)
        d = os.path.join(out, 'demo.sh')
        r = sh('bash %s' % d, cwd=R)
        clean = r.returncode
        if clean:
            print(r.stdout[-1500:])
        for f, old, new in s['edits']:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=R).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        bad = sh('bash %s' % d, cwd=R)
        tests = json.load(open('/opt/vp/BASELINE.json'))
        r = sh('/opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider '
               '--continue-on-collection-errors --tb=no -rA wcxf', cwd=R,
               env=dict(os.environ, PYTHONPATH=R, PYTHONDONTWRITEBYTECODE='1',
                        PATH='/opt/venv/bin:' + os.environ['PATH']))
        passed = sum(l.startswith('PASSED') for l in r.stdout.splitlines())
        print('%s: demo clean=%d patched=%d, %d tests pass  %s' % (
            name, clean, bad.returncode, passed,
            bad.stdout.strip().splitlines()[-1:]))
    finally:
        shutil.rmtree(T)


for n in sys.argv[1:] or SEEDS:
    main(n)
