"""catch.py [--all] NAME...: runs the checks against planted changes in scratch
copies; --all runs every check, otherwise the one of the property."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allp = '--all' in sys.argv
names = [a for a in sys.argv[1:] if not a.startswith('--')] or \
    sorted(os.listdir(os.path.join(HERE, 'seeded')))
for n in names:
    d = os.path.join(HERE, 'seeded', n)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    T = tempfile.mkdtemp(prefix='catch_', dir='/tmp')
    try:
        R = os.path.join(T, 'repo')
        subprocess.run(['cp', '-a', '/repo', R], check=True)
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')],
                       cwd=R, check=True)
        env = dict(os.environ, VF_REPO=R, VF_EVIDENCE=os.path.join(T, 'ev'))
        props = [prop]
        if allp:
            man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
            props = [c['property'] for c in man['checks']]
        for p in props:
            t0 = time.time()
            r = subprocess.run(['python3-vt', 'check.py', p], cwd=HERE,
                               env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if allp and r.returncode == 0:
                continue
            l = [x for x in r.stdout.splitlines() if x.startswith('  [')
                 or x.startswith('ANALYSIS')]
            print('%-18s %s exit %d (%.0f s) %s' % (
                n, p, r.returncode, time.time() - t0,
                (l or r.stdout.splitlines()[-1:] or ['?'])[0][:150]),
                flush=True)
    finally:
        shutil.rmtree(T)
