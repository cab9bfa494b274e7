"""Typestate of the temporary directory over all outcomes of the LaTeX check:
the abstract program is run for every exit status, every way of not starting,
every kind of log file (absent, empty, with errors at any place, undecodable,
unreadable) and set of files left by LaTeX, through the validation of a basis
and directly, once and repeatedly.  Afterwards the model file system has to be
what it was before."""
from .clilab import *
from vf.models import BadText
import subprocess

LEVEL = 'proof'
W = 'wcxf/classes.py: _testtex'


LOGS = {'absent': None, 'empty': '', 'clean': 'This is pdfTeX\nok\n',
        'undefined first': '! Undefined control sequence.\nl.5 \\foo\n\nend\n',
        'undefined middle': 'a\n\nb ! Undefined control sequence.\nx\n \ny\n',
        'undefined last': 'a\n! Undefined control sequence.',
        'emergency': 'a\n! Emergency stop.\n<*> x\nmore\n',
        'both': '! Emergency stop.\n! Undefined control sequence.\n\n',
        'blank': '\n\n\n', 'other error': '! Missing $ inserted.\n\n',
        'undecodable': BadText('\ufffd'), 'directory': DIR}
ERRORS = [None, FileNotFoundError(2, 'No such file', 'latex'),
          PermissionError(13, 'Permission denied', 'latex'),
          OSError(8, 'Exec format error', 'latex'),
          MemoryError(), subprocess.TimeoutExpired('latex', 10),
          UnicodeEncodeError('ascii', '\u03b1', 0, 1, 'ordinal'),
          SystemExit(1), RuntimeError('x')]
LEFT = [('textest.aux', 'textest.dvi'), (), ('textest.dvi', 'sub/x.tmp')]
OTHER = {'/tmp/other': DIR, '/tmp/other/textest.tex': 'x',
         '/tmp/textest.log': 'y', '/work/textest.tex': 'mine',
         '/work/textest.log': 'mine', '/work/x.aux': '', '/work': DIR,
         '/tmp': DIR, '/root/keep': 'z'}


def latex(rc, err, log, left):
    def run(it, args, kw):
        d = kw.get('cwd') or '/work'
        job = 'textest'
        for i, a in enumerate(args):
            if a in ('-output-directory', '--output-directory'):
                d = args[i + 1]
            elif a.startswith(('-output-directory=', '--output-directory=')):
                d = a.split('=', 1)[1]
            elif a.endswith('.tex'):
                job = a.rpartition('/')[2][:-4]
        if err is not None:
            raise err
        if it.vfs.get(it.abspath(d)) is not DIR:
            return subprocess.CompletedProcess(args, 1, '', '')
        for n in left:
            it.vfs[it.abspath(d + '/' + n.replace('textest', job))] = 'out'
        if log is not None:
            it.vfs[it.abspath(d + '/' + job + '.log')] = log
        out = '' if (kw.get('text') or kw.get('universal_newlines')) else b''
        return subprocess.CompletedProcess(args, rc, out, out)
    return run


def listing(lab):
    return {k: v for k, v in lab.it.vfs.items()}


def basis(lab, tex, name='b'):
    return lab.call(lab.wcxf.Basis, 'E', name, {
        's': {'x': {'tex': tex}, 'y': None, 'z': {}}})


def one(ctx, name, rc, err, log, left, via, times):
    def fn():
        lab = ctx.lab(subprocess=latex(rc, err, log, left))
        lab.call(lab.wcxf.EFT, 'E', {'s': {}})
        lab.it.vfs.update(OTHER)
        before = listing(lab)
        rs = []
        for i in range(times):
            if via == 'validate':
                b = basis(lab, r'\bar b \foo', 'b%d' % i)
                rs.append(ctx.run(lambda: lab.m(b, 'validate')))
            else:
                f = lab.mod('wcxf.classes')._testtex
                rs.append(ctx.run(lambda: lab.call(f, '$\\foo$')))
        return before, listing(lab), rs, list(lab.it.events)
    n = 0
    for tr, o in ctx.explore(fn, mode='split'):
        if not ctx.ok(o.ok, W, '%s: %s' % (name, o.show())):
            continue
        before, after, rs, events = o.value
        n += 1
        ends = 'after ' + rs[0].show() if not rs[0].ok else 'on return'
        new = sorted(set(after) - set(before))
        gone = sorted(set(before) - set(after))
        ch = sorted(k for k in before if k in after and
                    before[k] != after[k])
        fresh = [e[1] for e in events if e[0] == 'mkdtemp']
        for e in events:
            if e[0] in ('rmtree', 'remove', 'rmdir') or e[0] == 'open' and \
                    set(e[2]) & set('wax+'):
                ctx.ok(e[1] == '/dev/null' or
                       any((e[1] + '/').startswith(f + '/') for f in fresh),
                       e[-1], '%s: %s of %s, which is not in a newly created '
                       'temporary directory' % (name, e[0], e[1]))
        ctx.ok(not new, W, '%s: left behind %s: %s' % (name, ends, new))
        ctx.ok(not gone, W, '%s: removed: %s' % (name, gone))
        ctx.ok(not ch, W, '%s: changed: %s' % (name, ch))
    return n


def run(ctx):
    n = 0
    for via in ('validate', 'direct'):
        with ctx.rule('outcomes, ' + via):
            for rc in (0, 1, 2, -9, 127):
                for l, log in LOGS.items():
                    for left in LEFT:
                        for times in ((1, 3) if left == LEFT[0] else (1,)):
                            n += one(ctx, '%s, LaTeX status %d, log %s'
                                     % (via, rc, l), rc, None, log, left,
                                     via, times)
        with ctx.rule('LaTeX does not run, ' + via):
            for err in ERRORS[1:]:
                for times in (1, 2):
                    n += one(ctx, '%s, %s' % (via, type(err).__name__), 0,
                             err, None, (), via, times)
    with ctx.rule('rejected before the LaTeX check'):
        for what, eft, secs in (('unknown EFT', 'X', {}),
                                ('unknown sector', 'E', {'q': {}}),
                                ('duplicates', 'E', {'s': {'a': {}},
                                                     't': {'a': {}}}),
                                ('TeX code is not text', 'E',
                                 {'s': {'a': {'tex': 5}}}),
                                ('empty basis', 'E', {})):
            def fn():
                lab = ctx.lab(subprocess=latex(0, None, None, ()))
                lab.call(lab.wcxf.EFT, 'E', {'s': {}, 't': {}})
                lab.it.vfs.update(OTHER)
                before = listing(lab)
                b = lab.call(lab.wcxf.Basis, eft, 'b', secs)
                r = ctx.run(lambda: lab.m(b, 'validate'))
                return before, listing(lab), r
            for tr, o in ctx.explore(fn, mode='split'):
                if not o.ok:
                    ctx.violation(o.where(), '%s: %s' % (what, o.show()))
                    continue
                n += 1
                ctx.ok(o.value[0] == o.value[1], W, '%s: files left behind '
                       'or changed: %s' % (what, sorted(
                           set(o.value[1]) ^ set(o.value[0]))))
    ctx.expect_at_least('outcomes', n, 300)
