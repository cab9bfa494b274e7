"""mut.py SPEC.py: SPEC defines M = [(file, old, new, 'C01 C02')]; runs the
checks on each mutant in a scratch copy (8 in parallel)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
J = int(os.environ.get('MUT_JOBS', '8'))


def one(m):
    f, old, new, props = m
    T = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    out = []
    try:
        R = os.path.join(T, 'repo')
        subprocess.run(['cp', '-a', '/repo', R], check=True)
        p = os.path.join(R, f)
        s = open(p).read()
        if s.count(old) < 1:
            return m, ['NOT FOUND']
        s = s.replace(old, new, 1)
        open(p, 'w').write(s)
        if f.endswith('.py'):
            try:
                compile(s, p, 'exec')
            except SyntaxError as e:
                return m, ['SYNTAX %s' % e]
        for c in props.split():
            env = dict(os.environ, VF_REPO=R, VF_EVIDENCE=T + '/ev',
                       VF_JOBS=os.environ.get('VF_JOBS', '1'))
            r = subprocess.run(['python3-vt', 'check.py', c], cwd=HERE,
                               env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            l = [x for x in r.stdout.splitlines() if x.startswith('  [')
                 or x.startswith('ANALYSIS') or 'Error' in x]
            out.append('%s exit %d %s' % (c, r.returncode,
                                          (l or ['-'])[0][:170]))
    finally:
        shutil.rmtree(T)
    return m, out


with ThreadPoolExecutor(J) as ex:
    for m, out in ex.map(one, g['M']):
        print('%s: %r -> %r' % (m[0], m[1][:60], m[2][:90]))
        for o in out:
            print('    ' + o)
        sys.stdout.flush()
