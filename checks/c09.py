"""Dataflow of abstract processes of the wcxf command, from the argument list
to the exit status: every subcommand with every source, target and output
format, in several orders and spellings of the options, on a coefficient file
with abstract values and with an arbitrary registered translation or matching.
The function registered for exactly the requested route must be applied once
to the content of the file; the document at the requested output (and nothing
else) must be the result.  Every class of failure (missing or malformed input,
wrong kind of file, unknown route, type, format, option; every reason to
reject a file; failure of the registered function) must give a non-zero exit
status and no success message."""
from .clilab import *

LEVEL = 'proof'
W = 'wcxf/cli.py: wcxf_cli'
OUT = '/out/r'


def values():
    return {'a': real('in:a'), 'b': {'Re': real('in:b1'),
                                     'Im': real('in:b2')},
            'c': {'Im': real('in:c')}}


def given():
    return {'a': real('in:a'), 'b': real('in:b1') + I_ * real('in:b2'),
            'c': I_ * real('in:c')}


SC = real('in:scale')
RES = {'u': real('out:u'), 'v': real('out:v1') + I_ * real('out:v2')}


def world(ctx, fail=False, latex=0, res=None):
    """EFTs, bases, translators and matchers"""
    def tex(it, args, kw):
        import subprocess
        if latex is None:
            raise FileNotFoundError(2, 'No such file', 'latex')
        return subprocess.CompletedProcess(args, latex)
    lab = ctx.lab(subprocess=tex)
    calls = []

    def mk(tag):
        def fun(x, scale, parameters):
            calls.append((tag, dict(x), scale, parameters))
            if fail:
                raise ValueError('cannot translate')
            return {tag + k: v for k, v in (
                RES if res is None else res).items()}
        return fun
    for e in ('E', 'F'):
        lab.call(lab.wcxf.EFT, e, {'s': {}, 't': {}})
        for b in ('b1', 'b2', 'b3'):
            lab.call(lab.wcxf.Basis, e, b, {
                's': {k: {} for k in 'abc'}, 't': {'d': {'tex': 'x'}}})
    for k in (('E', 'b1', 'b2'), ('E', 'b2', 'b1'), ('E', 'b1', 'b3'),
              ('F', 'b1', 'b2'), ('E', 'b3', 'F')):
        lab.call(lab.call(lab.wcxf.translator, *k), mk('T%s%s%s.' % k))
    for k in (('E', 'b1', 'F', 'b2'), ('E', 'b1', 'F', 'b1'),
              ('E', 'b2', 'F', 'b2'), ('F', 'b1', 'E', 'b2'),
              ('E', 'b1', 'E', 'b2')):
        lab.call(lab.call(lab.wcxf.matcher, *k), mk('M%s%s%s%s.' % k))
    lab.calls = calls
    return lab


def infile(lab, eft='E', basis='b1', fmt='json', **kw):
    d = {'eft': eft, 'basis': basis, 'scale': SC, 'values': values()}
    d.update(kw)
    return dumps(lab, {k: v for k, v in d.items() if v is not None}, fmt)


def variants():
    """(label, args after the subcommand's positionals, standard input?,
    target, format)"""
    r = []
    for src, a, std in (('file', ['/in/d'], 0), ('standard input', [], 1),
                        ('-', ['-'], 1)):
        for tgt, o, t in (('default output', [], None),
                          ('--output file', ['--output', OUT], OUT),
                          ('--output=file', ['--output=' + OUT], OUT),
                          ('--output -', ['--output', '-'], None),
                          ('--output', ['--output'], None)):
            for f in (None, 'json', 'yaml', 'JSON', 'YAML', 'Yaml'):
                fo = [] if f is None else ['--format', f]
                fmt = (f or 'json').lower()
                lab = '%s, %s, format %s' % (src, tgt, f)
                if o != ['--output']:
                    r.append((lab, lambda p, a=a, o=o, fo=fo: p + a + o + fo,
                              std, t, fmt))
                    if f in (None, 'yaml'):
                        r.append((lab + ' (options first)',
                                  lambda p, a=a, o=o, fo=fo: fo + o + p + a,
                                  std, t, fmt))
                else:
                    r.append((lab, lambda p, a=a, o=o, fo=fo: fo + p + a + o,
                              std, t, fmt))
    return r


def success(ctx, cmd, pos, key, target, label, args, std, out, fmt, infmt,
            mode='mixed', content=None, res=None, extra={}):
    tag = ('T' if cmd == 'translate' else 'M') + ''.join(key) + '.'
    n = 0

    def fn():
        lab = world(ctx, res=res)
        t = infile(lab, key[0], key[1], infmt, **dict(extra, values=values()
                   if content is None else content))
        other = infile(lab, 'F', 'b1', values={'a': 1.0})
        p = process(ctx, lab, 'wcxf_cli', [cmd] + args(pos),
                    stdin=t if std else other,
                    files={OUT + 'x': 'old'} if std else {'/in/d': t})
        return p, list(lab.calls)
    name = '%s %s, %s' % (cmd, ' '.join(pos), label)
    for tr, o in ctx.explore(fn, mode=mode):
        if not ctx.ok(o.ok, W, '%s: %s' % (name, o.show())):
            continue
        p, calls = o.value
        n += 1
        if not ctx.ok(p.status == 0, p.where(W), '%s: %s'
                      % (name, p.show())):
            continue
        if ctx.ok(len(calls) == 1 and calls[0][0] == tag, W,
                  '%s: the functions %s are applied' % (
                      name, [c[0] for c in calls])):
            ctx.ok(equal(calls[0][1], given() if content is
                         None else {k: num(v) for k, v in content.items()}) and
                   equal(calls[0][2], SC), W, '%s: the content of the file '
                   'is not what is passed on' % name)
            ctx.ok(calls[0][3] is None or calls[0][3] == {}, W,
                   '%s: parameters %s' % (name, calls[0][3]))
        t = p.out if out is None else p.files.get(out, '')
        ctx.ok(p.changed == ([out] if out else []), W, '%s: changes the '
               'files %s' % (name, p.changed))
        ctx.ok(not (out and p.out), W, '%s: text on the standard output'
               % name)
        ok, d = loads(ctx, p.lab, t, fmt)
        if not ctx.ok(ok and isinstance(d, dict), W, '%s: the output is not '
                      'one %s document' % (name, fmt), detail=t[:200]):
            continue
        if fmt == 'yaml':
            ctx.ok(not loads(ctx, p.lab, t, 'json')[0], W,
                   '%s: the output is JSON' % name)
        got = {k: num(v) for k, v in (d.get('values') or {}).items()}
        R = RES if res is None else res
        exp = settled({tag + k: v for k, v in R.items()}, tr)
        exp = {k: v for k, v in exp.items() if v.t and
               nonzero(R[k[len(tag):]], tr) is not False}
        ctx.ok(d.get('eft') == target[0] and d.get('basis') == target[1] and
               equal(d.get('scale'), SC), W, '%s: the result has EFT %s, '
               'basis %s, scale %s' % (name, d.get('eft'), d.get('basis'),
                                       d.get('scale')))
        ctx.ok(set(got) == set(exp) and all(same(got[k], exp[k])
                                            for k in exp), W,
               '%s: the values in the output differ from the result' % name,
               detail='%s / %s' % (got, exp))
        ctx.ok(set(d) == {'eft', 'basis', 'scale', 'values'}, W,
               '%s: the output has the entries %s' % (name, sorted(d)))
    return n


def num(v):
    if isinstance(v, dict):
        return lift(v.get('Re', 0)) + I_ * lift(v.get('Im', 0))
    return lift(v)


def failing(ctx, name, args, stdin='', files=None, fail=False, latex=0,
            prepare=None, outs=(OUT,)):
    n = 0

    def fn():
        lab = world(ctx, fail, latex)
        if prepare:
            prepare(lab)
        g = lambda x: x(lab) if callable(x) else x
        return process(ctx, lab, 'wcxf_cli', args, stdin=g(stdin),
                       files={k: g(v) for k, v in (files or {}).items()})
    for tr, o in ctx.explore(fn, mode='split'):
        if not ctx.ok(o.ok, W, '%s: %s' % (name, o.show())):
            continue
        p = o.value
        n += 1
        ctx.ok(p.status != 0, W, '%s: %s' % (name, p.show()))
        ctx.ok('success' not in p.out.lower(), W,
               '%s: success is reported' % name)
        ctx.ok(all(c in outs or c.startswith('/tmp/') for c in p.changed), W,
               '%s: changes the files %s' % (name, p.changed))
    return n


MALFORMED = ['', '{', 'a: b: c', '[1, 2]', '"x"', '1', '{"eft": "E"', 'null',
             '- a\n- b\n', '{}', '@']


def sources(text_):
    return [('file', ['/in/d'], '{"wrong": 1}', {'/in/d': text_}),
            ('standard input', [], text_, {}), ('-', ['-'], text_, {})]


def conversion_failures(ctx, cmd, pos):
    n = 0
    for m in MALFORMED:
        for s, a, i, fs in sources(m):
            for f in ([], ['--format', 'yaml'], ['--output', OUT]):
                n += failing(ctx, '%s of %r from %s' % (cmd, m, s),
                             [cmd] + pos + a + f, i, fs)
    good = lambda lab: infile(lab)
    for miss in ('eft', 'basis', 'scale', 'values'):
        t = lambda lab: infile(lab, **{miss: None})
        for s, a, i, fs in sources(t):
            n += failing(ctx, '%s of a file without %s' % (cmd, miss),
                         [cmd] + pos + a, i, fs)
    for what, kw in (('non-numeric value', {'values': {'a': 'x'}}),
                     ('non-numeric part', {'values': {'a': {'Re': [1]}}}),
                     ('list as values', {'values': ['a']}),
                     ('non-numeric scale', {'scale': 'high'}),
                     ('scale list', {'scale': [1]}),
                     ('unknown EFT', {'eft': 'X'}),
                     ('EFT in lower case', {'eft': 'e'}),
                     ('unknown basis', {'basis': 'X'}),
                     ('basis in upper case', {'basis': 'B1'}),
                     ('basis with extension', {'basis': 'b11'}),
                     ('list as EFT', {'eft': ['E']})):
        t = lambda lab: infile(lab, **kw)
        for s, a, i, fs in sources(t):
            n += failing(ctx, '%s of a file with %s' % (cmd, what),
                         [cmd] + pos + a, i, fs)
    for f in ('xml', '', 'yml', 'jsonl', 'json ', 'wcxf', 'txt'):
        for o in ([], ['--output', OUT]):
            n += failing(ctx, '%s to format %r' % (cmd, f),
                         [cmd] + pos + ['/in/d', '--format', f] + o, '',
                         {'/in/d': good})
    for what, args in (('a missing file', pos + ['/in/none']),
                       ('no arguments', []),
                       ('an unknown option', pos + ['/in/d', '--xyz']),
                       ('too many arguments', pos + ['/in/d', 'x', 'y', 'z']),
                       ('--format without value', pos + ['/in/d', '--format']
                        )):
        n += failing(ctx, '%s with %s' % (cmd, what), [cmd] + args, '',
                     {'/in/d': good})
    n += failing(ctx, cmd + ' with a failing function',
                 [cmd] + pos + ['/in/d'], '', {'/in/d': good}, fail=True)
    n += failing(ctx, cmd + ' with a failing function to a file',
                 [cmd] + pos + ['/in/d', '--output', OUT], '',
                 {'/in/d': good}, fail=True)
    return n


# ------------------------------------------------------------------ validate
def eft_doc(**kw):
    d = {'eft': 'N', 'sectors': {'s': {}, 't': {}}}
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}


def basis_doc(**kw):
    d = {'eft': 'E', 'basis': 'new', 'sectors': {
        's': {'x': {'tex': 'x'}, 'y': None}, 't': {'z': {}}}}
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}


def wc_doc(**kw):
    d = {'eft': 'E', 'basis': 'b1', 'scale': SC, 'values': values()}
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}


VALID = [('eft', 'EFT', eft_doc()),
         ('eft', 'EFT without sectors', eft_doc(sectors={})),
         ('eft', 'known EFT', eft_doc(eft='E')),
         ('basis', 'basis', basis_doc()),
         ('basis', 'basis with fewer sectors',
          basis_doc(sectors={'t': {'z': {}}})),
         ('basis', 'child basis', basis_doc(parent='b1', sectors={'t': {}})),
         ('wc', 'coefficient file', wc_doc()),
         ('wc', 'empty coefficient file', wc_doc(values={})),
         ('wc', 'coefficient file with one entry',
          wc_doc(eft='F', basis='b2', values={'d': real('d')}))]
INVALID = [('eft', 'EFT file without sectors entry', eft_doc(sectors=None)),
           ('eft', 'EFT file without EFT', eft_doc(eft=None)),
           ('eft', 'coefficient file as EFT', wc_doc()),
           ('basis', 'coefficient file as basis', wc_doc()),
           ('basis', 'EFT file as basis', eft_doc()),
           ('basis', 'basis of unknown EFT', basis_doc(eft='X')),
           ('basis', 'basis with unknown sector',
            basis_doc(sectors={'s': {}, 'q': {}})),
           ('basis', 'basis with only unknown empty sector',
            basis_doc(sectors={'q': {}})),
           ('basis', 'basis with duplicates',
            basis_doc(sectors={'s': {'x': {}}, 't': {'x': {}}})),
           ('basis', 'child of unknown basis', basis_doc(parent='nob')),
           ('basis', 'child basis duplicating inherited coefficient',
            basis_doc(parent='b1', sectors={'t': {'a': {}}})),
           ('basis', 'basis file without sectors', basis_doc(sectors=None)),
           ('wc', 'EFT file as coefficient file', eft_doc()),
           ('wc', 'basis file as coefficient file', basis_doc()),
           ('wc', 'coefficient file of unknown EFT', wc_doc(eft='X')),
           ('wc', 'coefficient file of unknown basis', wc_doc(basis='X')),
           ('wc', 'coefficient file with unknown coefficient',
            wc_doc(values={'a': real('a'), 'q': real('q')})),
           ('wc', 'coefficient file with only unknown coefficients',
            wc_doc(values={'A': real('a')})),
           ('wc', 'coefficient file without scale', wc_doc(scale=None)),
           ('wc', 'coefficient file with textual scale',
            wc_doc(scale='high')),
           ('wc', 'coefficient file without values', wc_doc(values=None))]


def validation(ctx):
    n = 0
    for typ, what, doc in VALID:
        for fmt in ('json', 'yaml'):
            for s, a, i, fs in sources(lambda lab: dumps(lab, doc, fmt)):
                for latex in ((0, None) if typ == 'basis' else (0,)):
                    n += valid(ctx, typ, what, fmt, s, a, i, fs, latex)
    for typ, what, doc in INVALID:
        for fmt in ('json', 'yaml'):
            for s, a, i, fs in sources(lambda lab: dumps(lab, doc, fmt)):
                n += failing(ctx, 'validate %s: %s from %s' % (typ, what, s),
                             ['validate', typ] + a, i, fs)
    for rc in (1, 2, 127, -9):
        n += failing(ctx, 'validate basis: LaTeX fails with %d' % rc,
                     ['validate', 'basis', '/in/d'], '', {
                         '/in/d': lambda lab: dumps(lab, basis_doc(),
                                                    'json')}, latex=rc)
    for typ in ('eft', 'basis', 'wc'):
        for m in MALFORMED:
            for s, a, i, fs in sources(m):
                n += failing(ctx, 'validate %s: %r from %s' % (typ, m, s),
                             ['validate', typ] + a, i, fs)
        n += failing(ctx, 'validate %s: missing file' % typ,
                     ['validate', typ, '/in/none'])
        n += failing(ctx, 'validate %s: unknown option' % typ,
                     ['validate', typ, '/in/d', '--strict'], '',
                     {'/in/d': lambda lab: dumps(lab, VALID[0][2], 'json')})
    for typ in ('', 'efts', 'translator', 'wcs', 'json', 'wcxf', 'b', 'sm',
                'matcher', 'wc basis'):
        for t, what, doc in VALID:
            n += failing(ctx, 'validate %r: %s' % (typ, what),
                         ['validate', typ, '/in/d'], '',
                         {'/in/d': lambda lab: dumps(lab, doc, 'json')})
    n += failing(ctx, 'validate without type', ['validate'])
    return n


def valid(ctx, typ, what, fmt, s, a, i, fs, latex):
    name = 'validate %s: %s (%s) from %s' % (typ, what, fmt, s)

    def fn():
        lab = world(ctx, latex=latex)
        g = lambda x: x(lab) if callable(x) else x
        return process(ctx, lab, 'wcxf_cli', ['validate', typ] + a,
                       stdin=g(i), files={k: g(v) for k, v in fs.items()})
    n = 0
    for tr, o in ctx.explore(fn, mode='split'):
        if not ctx.ok(o.ok, W, '%s: %s' % (name, o.show())):
            continue
        p = o.value
        n += 1
        ctx.ok(p.status == 0, p.where(W), '%s: %s' % (name, p.show()))
        ctx.ok('success' in p.out.lower(), W, '%s: no success is reported'
               % name)
        ctx.ok(not p.changed, W, '%s: changes the files %s'
               % (name, p.changed))
        if typ == 'basis' and not o.exc:
            ctx.ok(any(e[0] == 'subprocess' for e in p.events), W,
                   '%s: the TeX code is not checked' % name)
    return n


def run(ctx):
    n = 0
    for cmd, pos, key, target in (
            ('translate', ['b2'], ('E', 'b1', 'b2'), ('E', 'b2')),
            ('match', ['F', 'b2'], ('E', 'b1', 'F', 'b2'), ('F', 'b2'))):
        with ctx.rule(cmd):
            for label, args, std, out, fmt in variants():
                for infmt in ('json', 'yaml'):
                    n += success(ctx, cmd, pos, key, target, label, args, std,
                                 out, fmt, infmt)
        with ctx.rule(cmd + ' failures'):
            n += conversion_failures(ctx, cmd, pos)
    with ctx.rule('translate: other routes'):
        v = variants()[0]
        for key in (('E', 'b2', 'b1'), ('E', 'b1', 'b3'), ('F', 'b1', 'b2')):
            n += success(ctx, 'translate', [key[2]], key, (key[0], key[2]),
                         *v, 'json', 'split')
        for b in ('b1', 'x', '', 'B2', 'b', 'b22', 'F', 'E'):
            n += failing(ctx, 'translate to unknown %r' % b,
                         ['translate', b, '/in/d'], '', {'/in/d': infile})
    with ctx.rule('match: other routes'):
        for key in (('E', 'b1', 'F', 'b1'), ('E', 'b2', 'F', 'b2'),
                    ('F', 'b1', 'E', 'b2'), ('E', 'b1', 'E', 'b2')):
            n += success(ctx, 'match', list(key[2:]), key, key[2:], *v,
                         'json', 'split')
        for e, b in (('F', 'b3'), ('X', 'b2'), ('f', 'b2'), ('b2', 'F'),
                     ('E', 'b1'), ('', ''), ('E', 'b3')):
            n += failing(ctx, 'match to unknown %r %r' % (e, b),
                         ['match', e, b, '/in/d'], '', {'/in/d': infile})
    with ctx.rule('contents'):
        for cmd, pos, key, target in (
                ('translate', ['b2'], ('E', 'b1', 'b2'), ('E', 'b2')),
                ('match', ['F', 'b2'], ('E', 'b1', 'F', 'b2'), ('F', 'b2'))):
            for infmt in ('json', 'yaml'):
                for fmt in variants()[:4]:
                    for content, res in (
                            ({}, None), ({}, {}), (None, {}),
                            (None, {'z': 0.0, 'u': real('u')}),
                            ({'a': 1.5}, {'b': 2.5}),
                            ({'a': {'Re': real('q'), 'Im': 0}},
                             {'b': real('q') * I_}),
                            ({'unknown': real('q')}, None),
                            ({'a': real('q'), 'zero': 0, 'e': {}}, None)):
                        n += success(ctx, cmd, pos, key, target, *fmt, infmt,
                                     content=content, res=res)
                    n += success(ctx, cmd, pos, key, target, *fmt, infmt,
                                 extra={'metadata': {'x': 1}, 'name': 'n'})
    with ctx.rule('validate'):
        n += validation(ctx)
    with ctx.rule('unknown subcommands'):
        for c in ('foo', 'trans', '', 'validation', 'eos', '--x'):
            n += failing(ctx, 'subcommand %r' % c, [c, 'b2', '/in/d'], '',
                         {'/in/d': infile})
    ctx.expect_at_least('processes', n, 900)
