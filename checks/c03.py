"""Dataflow through the validation of basis files: it returns normally exactly
if the EFT is registered, all sectors belong to the EFT, no coefficient name
occurs in two sectors and the LaTeX run (model: success, failure, no latex
executable; with and without log file) does not fail; the LaTeX document must
contain the TeX code of every coefficient."""
from .baselab import *
import os
import subprocess

LEVEL = 'proof'
TEX = {'a': r'\alpha_1', 'b': r'b^{\dagger}', 'c': r'c_{\mu\nu}',
       'd': r'\bar d', 'e': r'\eps'}


def entry(k, style):
    if style == 0:
        return {'tex': TEX[k]}
    if style == 1:
        return {'real': True, 'tex': TEX[k]}
    if style == 2:
        return None
    if style == 3:
        return {'real': True}
    return {}


def bases():
    """(description, sectors, eft sectors or None, parent sectors, valid)"""
    def sec(*ss, style=0):
        return {n: {k: entry(k, (style + i) % 5 if style else 0)
                    for i, k in enumerate(ks)} for n, ks in ss}
    E = ('s1', 's2', 's3')
    yield 'one sector', sec(('s1', 'ab')), E, None, True
    yield 'two sectors', sec(('s1', 'ab'), ('s2', 'cd')), E, None, True
    for st in (1, 2, 3, 4):
        yield 'entries of all kinds %d' % st, sec(
            ('s1', 'abc'), ('s3', 'de'), style=st), E, None, True
    yield 'no sectors', {}, E, None, True
    yield 'empty sector', {'s1': {}}, E, None, True
    yield 'all sectors', sec(('s3', 'a'), ('s2', 'b'), ('s1', 'c')), E, \
        None, True
    yield 'EFT unknown', sec(('s1', 'ab')), None, None, False
    yield 'unknown sector', sec(('s1', 'ab'), ('s4', 'c')), E, None, False
    yield 'unknown sector only', sec(('x', 'ab')), E, None, False
    yield 'unknown empty sector', {'s1': {'a': {}}, 'x': {}}, E, None, False
    yield 'EFT without sectors', sec(('s1', 'a')), (), None, False
    yield 'duplicate', sec(('s1', 'ab'), ('s2', 'cb')), E, None, False
    yield 'duplicate in the last', sec(('s1', 'ab'), ('s2', 'cd'),
                                       ('s3', 'ea')), E, None, False
    yield 'duplicate of an entry without data', \
        {'s1': {'a': None}, 's2': {'a': None}}, E, None, False
    yield 'two duplicates', sec(('s1', 'ab'), ('s2', 'ab')), E, None, False
    yield 'child', sec(('s2', 'c')), E, sec(('s1', 'ab')), True
    yield 'child replacing a sector', sec(('s1', 'cd')), E, \
        sec(('s1', 'ab')), True
    yield 'child duplicating', sec(('s2', 'a')), E, sec(('s1', 'ab')), False
    yield 'child of a parent with an unknown sector', sec(('s1', 'a')), E, \
        sec(('x', 'b')), False


LATEX = [('ok', 0, 'fine\n', True), ('fails', 1, '! Undefined control '
         'sequence.\nl.4 \\eps\n\nend', False),
         ('fails with emergency stop', 1, 'x\n! Emergency stop.', False),
         ('fails without known message', 1, 'something\n', False),
         ('fails without log', 1, None, False),
         ('is missing', None, None, True)]


def run(ctx):
    W = 'validation of basis files'
    for what, secs, eft, parent, valid in bases():
        with ctx.rule(what):
            for lname, rc, log, lok in LATEX:
                for opt in (False, True):
                    docs = []

                    def fn():
                        lab = ctx.lab(optimize=opt,
                                      subprocess=latex(rc, log, docs))
                        if eft is not None:
                            lab.eft('E', eft)
                        else:
                            lab.eft('Other', ('s1', 's2'))
                        kw = {}
                        if parent is not None:
                            lab.call(lab.wcxf.Basis, 'E', 'P', parent)
                            kw['parent'] = 'P'
                        b = lab.call(lab.wcxf.Basis, 'E', 'B', secs, **kw)
                        return lab, b, ctx.run(lambda: lab.m(b, 'validate'))
                    for tr, o in ctx.explore(fn, mode='split'):
                        if not o.ok:
                            ctx.violation(o.where(), 'preparation '
                                          + o.show())
                            continue
                        lab, b, r = o.value
                        if valid and lok:
                            ctx.ok(r.ok, r.where() if not r.ok else W,
                                   'valid basis (%s, latex %s) is rejected: '
                                   '%s' % (what, lname, r.show()))
                        else:
                            ctx.ok(not r.ok and isinstance(r.exc, Exception),
                                   W, 'invalid basis (%s, latex %s) passes '
                                   'validation' % (what, lname))
                        if valid:
                            allsec = dict(parent or {}, **secs)
                            tex = [d['tex'] for s in allsec.values()
                                   for d in s.values() if d and 'tex' in d]
                            if rc is not None and tex:
                                ctx.ok(len(docs) > 0, W,
                                       'the TeX code is not compiled (%s)'
                                       % what)
                                for t in tex:
                                    ctx.ok(any(t in d for d in docs), W,
                                           'TeX code %s is not checked' % t)
    ctx.expect_at_least('bases', len(list(bases())), 20)


def latex(rc, log, docs):
    """outcome of the latex run: handled by the subprocess model"""
    def f(it, args, k):
        a = [str(x) for x in (args if isinstance(args, (list, tuple))
                              else [args])]
        if rc is None:
            raise FileNotFoundError(2, 'No such file or directory', 'latex')
        cwd = str(k.get('cwd') or '.')
        out = cwd
        for i, x in enumerate(a):
            if x.lstrip('-').startswith('output-directory'):
                out = x.split('=', 1)[1] if '=' in x else a[i + 1]
        for x in a[1:]:
            for y in (x, x + '.tex'):
                t = it.vfs.get(it.abspath(os.path.join(cwd, y)))
                if isinstance(t, str):
                    docs.append(t)
                    n = os.path.splitext(os.path.basename(y))[0]
                    if log is not None:
                        it.vfs[it.abspath(os.path.join(out, n + '.log'))] = \
                            log
                    break
        return subprocess.CompletedProcess(args, rc, b'', b'')
    return f
