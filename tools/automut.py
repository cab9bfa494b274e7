"""automut.py FILE N SEED CHECK...: samples N syntactic mutants of
/repo/FILE and runs the checks, in order, until one reports a violation.
Prints the mutants that no check reports (to be judged: equivalent or missed).
Environment: MUT_JOBS parallel mutants, MUT_LINES=a-b restricts the lines."""
import ast, copy, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
CHECKS = sys.argv[4:]
SRC = open(os.path.join('/repo', F)).read()
LO, HI = [int(x) for x in os.environ.get('MUT_LINES', '1-999999').split('-')]


def muts(node, parent, field):
    """yields (description, function applied to a deep copy of the node)"""
    C = ast.Constant
    if isinstance(node, ast.BinOp):
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
              ast.Div: ast.Mult}
        t = sw.get(type(node.op))
        if t:
            yield 'op', lambda n: ast.BinOp(n.left, t(), n.right)
        if isinstance(node.op, ast.MatMult):
            yield 'swap', lambda n: ast.BinOp(n.right, n.op, n.left)
        yield 'left', lambda n: n.left
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        yield 'sign', lambda n: n.operand
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield 'not', lambda n: n.operand
    if isinstance(node, C) and isinstance(node.value, (int, float)) and \
            not isinstance(node.value, bool):
        yield 'const', lambda n: C(n.value + 1)
        yield 'const-', lambda n: C(n.value - 1 if n.value else 2)
    if isinstance(node, C) and isinstance(node.value, bool):
        yield 'bool', lambda n: C(not n.value)
    if isinstance(node, C) and isinstance(node.value, str) and node.value and \
            not isinstance(parent, ast.Expr):
        v = node.value
        for a, b in (('LL', 'RR'), ('RR', 'LL'), ('LR', 'RL'), ('RL', 'LR'),
                     ('p', ''), ('1', '2'), ('d', 'u'), ('u', 'd'),
                     ('tilde', ''), ('3', '1'), ('s', 'd'), ('_', '-')):
            if a in v:
                yield 'str', (lambda a, b: lambda n: C(n.value.replace(
                    a, b, 1)))(a, b)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) \
            and node.func.attr in ('conj', 'conjugate', 'copy', 'lower') and \
            not node.args:
        yield 'nocall', lambda n: n.func.value
    if isinstance(node, ast.Call) and len(node.args) >= 2:
        def sw2(n):
            n.args[0], n.args[1] = n.args[1], n.args[0]
            return n
        yield 'args', sw2

        def sw3(n):
            n.args[-1], n.args[-2] = n.args[-2], n.args[-1]
            return n
        yield 'args-', sw3
    if isinstance(node, ast.Tuple) and len(node.elts) >= 2 and isinstance(
            node.ctx, ast.Load):
        k = random.randrange(len(node.elts) - 1)

        def tsw(n, k=k):
            n.elts[k], n.elts[k + 1] = n.elts[k + 1], n.elts[k]
            return n
        yield 'tuple', tsw
    if isinstance(node, (ast.List, ast.Tuple)) and len(node.elts) >= 2 and \
            isinstance(node.ctx, ast.Load):
        k = random.randrange(len(node.elts))

        def drop(n, k=k):
            del n.elts[k]
            return n
        yield 'drop', drop
    if isinstance(node, ast.Dict) and len(node.keys) >= 2:
        k = random.randrange(len(node.keys))

        def dd(n, k=k):
            del n.keys[k], n.values[k]
            return n
        yield 'dictdrop', dd

        def dsw(n, k=k):
            j = (k + 1) % len(n.keys)
            n.values[k], n.values[j] = n.values[j], n.values[k]
            return n
        yield 'dictswap', dsw
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
              ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
              ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
              ast.GtE: ast.Gt}[type(node.ops[0])]
        yield 'cmp', lambda n: ast.Compare(n.left, [sw()], n.comparators)
    if isinstance(node, ast.BoolOp):
        yield 'bool', lambda n: ast.BoolOp(
            ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
            isinstance(node, ast.Expr) and isinstance(node.value, C)):
        yield 'delete', lambda n: ast.Pass()
    if isinstance(node, ast.If):
        yield 'iftrue', lambda n: ast.If(C(True), n.body, n.orelse)
        yield 'iffalse', lambda n: ast.If(C(False), n.body, n.orelse)


def sites():
    random.seed(SEED)
    tree = ast.parse(SRC)
    out = []
    for parent in ast.walk(tree):
        for field, val in ast.iter_fields(parent):
            for i, node in enumerate(val if isinstance(val, list) else [val]):
                if not isinstance(node, ast.AST):
                    continue
                line = getattr(node, 'lineno', None)
                if line is None or not LO <= line <= HI:
                    continue
                for kind, f in muts(node, parent, field):
                    out.append((line, kind, parent, field,
                                i if isinstance(val, list) else None, node,
                                f))
    return tree, out


def make():
    tree, s = sites()
    # choose the line first, so that big tables do not crowd out the rest
    by = {}
    for m in s:
        by.setdefault((m[0], m[1]), []).append(m)
    keys = sorted(by)
    random.seed(SEED + 1)
    random.shuffle(keys)
    res = []
    for k in keys[:N]:
        line, kind, parent, field, i, node, f = random.choice(by[k])
        new = f(copy.deepcopy(node))
        if not hasattr(new, 'lineno'):
            ast.copy_location(new, node)
        val = getattr(parent, field)
        if i is None:
            setattr(parent, field, new)
        else:
            val[i] = new
        ast.fix_missing_locations(tree)
        try:
            text = ast.unparse(tree)
            d = '%s:%d %s: %s -> %s' % (F, line, kind,
                                        ast.unparse(node)[:100],
                                        ast.unparse(new)[:100])
        except Exception as e:
            text = None
        if i is None:
            setattr(parent, field, node)
        else:
            val[i] = node
        if text:
            res.append((d, text))
    return res


def one(m):
    d, text = m
    T = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    out = []
    try:
        R = os.path.join(T, 'repo')
        subprocess.run(['cp', '-a', '/repo', R], check=True)
        open(os.path.join(R, F), 'w').write(text)
        r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c',
                            'import wcxf'], cwd=R, env=dict(
                                os.environ, PYTHONPATH=R),
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        if r.returncode:
            return d, ['does not import']
        for c in CHECKS:
            env = dict(os.environ, VF_REPO=R, VF_EVIDENCE=T + '/ev',
                       VF_JOBS=os.environ.get('VF_JOBS', '1'))
            r = subprocess.run(['python3-vt', 'check.py', c], cwd=HERE,
                               env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            l = [x for x in r.stdout.splitlines() if x.startswith('ANALYSIS')
                 or 'Error' in x]
            out.append('%s=%d %s' % (c, r.returncode, l[0][:140] if
                                     r.returncode == 2 and l else ''))
            if r.returncode == 1:
                break
    finally:
        shutil.rmtree(T)
    return d, out


if __name__ == '__main__':
    M = make()
    caught = tot = 0
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '8'))) as ex:
        for d, out in ex.map(one, M):
            if out == ['does not import']:
                continue
            tot += 1
            if out[-1].split()[0].endswith('=1'):
                caught += 1
                if os.environ.get('MUT_ALL'):
                    print('caught', d, out[-1])
            else:
                print('SURVIVED', d, out)
            sys.stdout.flush()
    print('%s: %d of %d caught' % (F, caught, tot))
