"""Dataflow through the conversion command and the conversion functions: for
documents of every kind with abstract numbers, difficult names, empty entries
and nesting, the abstract process is analysed from the argument list to the
exit status for all combinations of source (file, standard input), target
(file, standard output) and spelling of the format.  The text that arrives at
the requested output must be one document of the requested format equal to the
input document; nothing else may be written.  Malformed documents, unknown
formats and missing files must end in a non-zero status."""
from .clilab import *

LEVEL = 'proof'
W = 'wcxf/cli.py: convert'
ODD = ['a', 'C9_bsmumu', '1sbsb', '12', '1e5', '0x1', 'null', 'yes', 'No',
       'a b', 'a: b', "it's", 'say "x"', 'back\\slash', '\u03b1_s', '', '~',
       '_hidden', '- x', '#c', '{x}', '1_2', '=', '*x', '&y', '!z', '%',
       'tab\tx', 'line\nbreak', ' lead', 'trail ', '1:30', '2018-01-01']


def docs():
    x, y, z = real('x'), real('y'), real('z')
    wc = {'eft': 'WET', 'basis': 'flavio', 'scale': z,
          'values': {k: (x if i % 3 == 0 else {'Re': y, 'Im': x} if i % 3 == 1
                         else {'Im': z}) for i, k in enumerate(ODD)}}
    return [
        ('coefficient file', wc),
        ('coefficient file with literal numbers',
         {'eft': 'E', 'basis': 'B', 'scale': 160, 'values': {
             'a': 0.1, 'b': -3, 'c': 0, 'd': 1e-300, 'e': 1.5e300,
             'f': 123456789012345678, 'g': '1e-3', 'h': 1e-05, 'i': -0.5,
             'j': {'Re': 0.0, 'Im': -2.5e-7}, 'k': {}, 'l': 1e16,
             'm': '1', 'n': '0.1', 'o': 1 / 3}}),
        ('empty coefficient file',
         {'eft': 'E', 'basis': 'B', 'scale': x, 'values': {}}),
        ('EFT file', {'eft': 'E', 'sectors': {k: {} for k in ODD},
                      'metadata': {'description': 'a\nb\n', 'x': [1, [], {}]}
                      }),
        ('EFT file with empty entries',
         {'eft': 'E', 'sectors': {'a': None, 'b': {}, 'c': {'n': None}},
          'superset': [], 'metadata': None}),
        ('basis file', {
            'eft': 'E', 'basis': 'B', 'sectors': {
                's1': {k: ({'real': True, 'tex': r'\bar b_L \gamma^\mu'}
                           if i % 3 == 0 else None if i % 3 == 1 else {})
                       for i, k in enumerate(ODD)},
                's2': {}, 's3': None, 'yes': {'n': {'real': False}}}}),
        ('child basis file', {'eft': 'E', 'basis': 'B', 'parent': 'P',
                              'sectors': {'s': {'c': {'tex': '$'}}}}),
        ('nested lists', {'a': [1, x, [y, {'b': [None, True, False]}], []],
                          'strings': ['true', 'null', '1', '1.0', 'on', '-',
                                      '', '.5', '1e5', '.inf', 'long ' * 40,
                                      '\u00e9\u4e2d', '0o7', '010']}),
        ('long file', {'n%03d' % i: {'Re': x * i, 'Im': i / 7}
                       for i in range(150)}),
        ('list', [1, {'a': x}]), ('empty mapping', {}), ('empty list', []),
    ]


STYLES = {'json': [{}, {'indent': 2}, {'indent': 4, 'sort_keys': True},
                   {'ensure_ascii': False}],
          'yaml': [{}, {'default_flow_style': True}, {'indent': 4},
                   {'allow_unicode': True}, {'explicit_start': True}]}

RAW = {  # documents in notations the writers do not produce
    'json': [   # read as YAML
        ('anchors', 'a: &x {Re: 1, Im: 2}\nb: *x\n',
         {'a': {'Re': 1, 'Im': 2}, 'b': {'Re': 1, 'Im': 2}}),
        ('comments', '# c\na: 1 # d\n', {'a': 1}),
        ('block text', 'a: |\n  x\n  y\nb: >-\n  u\n  v\n',
         {'a': 'x\ny\n', 'b': 'u v'}),
        ('empty values', 'a:\nb: ~\nc: null\n',
         {'a': None, 'b': None, 'c': None}),
        ('quotes', 'a: "x\\ty"\nb: \'it\'\'s\'\n', {'a': 'x\ty', 'b': "it's"}),
        ('number notations', 'a: 1.0e-3\nb: 1e-3\nc: .5\nd: -1_000\n'
         'e: 0x10\nf: +1\ng: 1.\n',
         {'a': 0.001, 'b': '1e-3', 'c': .5, 'd': -1000, 'e': 16, 'f': 1,
          'g': 1.0}),
        ('explicit start and end', '---\na: 1\n...\n', {'a': 1}),
        ('JSON', '{"a": [1, 2.5, null, true], "b": {}}',
         {'a': [1, 2.5, None, True], 'b': {}}),
        ('booleans', 'a: true\nb: False\nc: "true"\n',
         {'a': True, 'b': False, 'c': 'true'}),
        ('repeated nesting', 'a:\n  b:\n    c:\n    - d: 1\n    - e\n',
         {'a': {'b': {'c': [{'d': 1}, 'e']}}}),
    ],
    'yaml': [   # read as JSON
        ('escapes', '{"a\\u03b1": "x\\ny\\t\\"q\\"\\\\ \\/"}',
         {'a\u03b1': 'x\ny\t"q"\\ /'}),
        ('number notations', '{"a": 1e-3, "b": 1E5, "c": -0, "d": 1.0, '
         '"f": 12345678901234567890, "g": 1.10}',
         {'a': 1e-3, 'b': 1e5, 'c': 0, 'd': 1.0,
          'f': 12345678901234567890, 'g': 1.1}),
        ('white space', '\n\t {"a" :\r\n 1 , "b":[ ] }\n\n',
         {'a': 1, 'b': []}),
        ('literals', '{"a": null, "b": true, "c": false, "d": ""}',
         {'a': None, 'b': True, 'c': False, 'd': ''}),
    ]}

BAD = {
    'json': ['{a: b', 'a: b: c', "'unterminated", 'a: *undefined', '[1, 2',
             'a: 1\n--- \nb: 2\n', '- a\nb: 1\n', 'a: "x', '@x', '`x`',
             '{"a": 1}}', 'a: !!int x' + '\n  - [', ': : :\n- [',
             'a:\n\t- b', '"a" "b"', '%YAML 9 x\n[', 'a: 1\n b: 2\n- c'],
    'yaml': ['', '{', '{"a": 1', "{'a': 1}", '{a: 1}', 'eft: WET\n',
             '{"a": 1,}', '[1 2]', '{"a": 1} {"b": 2}', 'nul', '"x',
             '{"a": 0x10}', '{"a": .5}', '{"a": 01}', '# c\n{}', '- a',
             '{"a": 1}}', '{"a" 1}', 'True', '{"a":}', '\n'],
}
UNKNOWN = ['xml', '', 'yml', 'jsonl', 'json ', 'wcxf', 'yaml1', 'j', 'toml',
           'txt', 'yamljson']


def same_doc(a, b):
    """equality including the difference of 1 and '1'; 1 == 1.0"""
    return equal(a, b)


def check_ok(ctx, name, fmt, p, doc, target):
    ctx.ok(p.status == 0, p.where(W), '%s: %s' % (name, p.show()))
    if p.status != 0:
        return
    text_ = p.out if target is None else p.files.get(target)
    other = p.out if target is not None else ''
    if not ctx.ok(isinstance(text_, str) and text_.strip(), W,
                  '%s: nothing is written to the requested output' % name):
        return
    ctx.ok(not other, W, name + ': text on the standard output although '
           'another output is requested')
    ctx.ok(p.changed == ([target] if target else []), W,
           '%s: changes the files %s' % (name, p.changed))
    ok, got = loads(ctx, p.lab, text_, fmt)
    if not ctx.ok(ok, W, '%s: the output is not one %s document'
                  % (name, fmt), detail=text_[:300]):
        return
    ctx.ok(same_doc(doc, got), W, '%s: the content changes: %s'
           % (name, diff(doc, got)))
    if fmt == 'yaml' and doc and not isinstance(doc, list):
        isj, _ = loads(ctx, p.lab, text_, 'json')
        ctx.ok(not isj, W, name + ': the output is JSON')


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + list(b):
            if k not in a or k not in b or not equal(a[k], b[k]):
                if k in a and k in b:
                    return '%s: %s' % (k, diff(a[k], b[k]))
                return 'entry %r' % (k,)
    return '%.60r / %.60r' % (a, b)


def routes():
    """(label, argument builder, from stdin?, target)"""
    o = '/out/r'
    return [
        ('file to file', lambda f: [f, '/in/d', '--output', o], False, o),
        ('file to standard output', lambda f: [f, '/in/d'], False, None),
        ('standard input (absent)', lambda f: [f], True, None),
        ('standard input (-)', lambda f: [f, '-'], True, None),
        ('standard input to file', lambda f: ['--output', o, f], True, o),
        ('standard input (-) to file',
         lambda f: [f, '-', '--output=' + o], True, o),
        ('output -', lambda f: [f, '/in/d', '--output', '-'], False, None),
        ('output without value', lambda f: [f, '/in/d', '--output'], False,
         None),
        ('existing output file', lambda f: ['--output', o + '2', f, '/in/d'],
         False, o + '2'),
    ]


def run(ctx):
    n = 0
    for fmt in ('json', 'yaml'):
        src = 'yaml' if fmt == 'json' else 'json'
        with ctx.rule('%s to %s: documents' % (src, fmt)):
            for what, doc in docs():
                for style in STYLES[src]:
                    n += good(ctx, what, fmt, doc, src, style,
                              routes()[:1] + routes()[2:3])
            if fmt == 'json':
                for what, doc in docs():
                    if 'literal' in what:   # YAML 1.1 reads 1e-300 as text
                        continue
                    n += good(ctx, what + ' (JSON)', fmt, doc, 'json', {},
                              routes()[:1])
            for what, t, doc in RAW[fmt]:
                n += good(ctx, what, fmt, doc, None, t, routes()[:1])
        with ctx.rule('%s to %s: sources, targets, spellings' % (src, fmt)):
            for what, doc in docs()[:2] + docs()[5:6]:
                for f in (fmt, fmt.upper(), fmt.capitalize()):
                    n += good(ctx, what, f, doc, src, {}, routes())
        with ctx.rule('%s to %s: malformed input' % (src, fmt)):
            for t in BAD[fmt]:
                for f in (fmt, fmt.upper()):
                    for r in routes()[:3]:
                        n += bad(ctx, f, t, r)
        with ctx.rule('%s to %s: conversion functions' % (src, fmt)):
            for what, doc in docs():
                direct(ctx, what, fmt, doc, src)
            for t in BAD[fmt]:
                direct(ctx, 'malformed %.20r' % t, fmt, None, src, t)
    with ctx.rule('unknown formats and files'):
        for f in UNKNOWN:
            for r in routes()[:3]:
                for t in ('{"a": 1}', 'a: 1\n', '{'):
                    n += bad(ctx, f, t, r, 'format %r' % f)
        for f in ('json', 'yaml'):
            for args in ([f, '/in/none'], [f, '/in/none', '--output',
                                           '/out/r'], [],
                         [f, '/in/d', '/in/e'], [f, '--unknown']):
                def fn():
                    lab = ctx.lab()
                    return process(ctx, lab, 'wcxf_cli', ['convert'] + args,
                                   stdin='{"a": 1}',
                                   files={'/in/d': '{"a": 1}'})
                for tr, o in ctx.explore(fn, mode='split'):
                    p = o.value
                    ctx.ok(p.status != 0, W, 'arguments %s: %s'
                           % (args, p.show()))
                    n += 1
    ctx.expect_at_least('processes', n, 500)


def good(ctx, what, fmt, doc, src, style, rs):
    n = 0
    for label, args, std, target in rs:
        def fn():
            lab = ctx.lab()
            t = style if src is None else dumps(lab, doc, src, **style)
            fs = {'/out/r2': 'old content\n' * 50}
            if not std:
                fs['/in/d'] = t
            return process(ctx, lab, 'wcxf_cli',
                           ['convert'] + args(fmt), stdin=t if std else
                           '{"wrong": 1}', files=fs)
        for tr, o in ctx.explore(fn, mode='split'):
            if not o.ok:
                ctx.violation(o.where(), '%s: %s' % (what, o.show()))
                continue
            n += 1
            check_ok(ctx, '%s to %s, %s' % (what, fmt, label), fmt.lower(),
                     o.value, doc, target)
    return n


def bad(ctx, fmt, t, r, what=None):
    label, args, std, target = r
    n = 0

    def fn():
        lab = ctx.lab()
        return process(ctx, lab, 'wcxf_cli', ['convert'] + args(fmt),
                       stdin=t if std else '{"a": 1}',
                       files={} if std else {'/in/d': t})
    for tr, o in ctx.explore(fn, mode='split'):
        if not o.ok:
            ctx.violation(o.where(), 'preparation: %s' % o.show())
            continue
        p = o.value
        n += 1
        ctx.ok(p.status != 0, W, '%s to %s, %s: %s'
               % (what or 'malformed %.25r' % t, fmt, label, p.show()))
        ctx.ok(set(p.changed) <= {target}, W, '%s to %s: changes the files '
               '%s' % (what or 'malformed %.25r' % t, fmt, p.changed))
    return n


def direct(ctx, what, fmt, doc, src, raw=None):
    def fn():
        lab = ctx.lab()
        m = lab.mod('wcxf.converters.yamljson')
        lab.it.vfs['/in/d'] = raw if raw is not None else \
            dumps(lab, doc, src)
        i = VFile(lab.it, '/in/d', 'r')
        lab.it.vfs['/out/r'] = ''
        before = dict(lab.it.vfs)
        o = VFile(lab.it, '/out/r', 'w')
        r = ctx.run(lambda: lab.call(getattr(m, 'convert_' + fmt), i, o))
        from .clilab import Proc
        return Proc(lab, r, before)
    for tr, o in ctx.explore(fn, mode='split'):
        p = o.value
        name = '%s to %s by function' % (what, fmt)
        if raw is not None:
            ctx.ok(p.status != 0, W, name + ': ' + p.show())
        else:
            check_ok(ctx, name, fmt, p, doc, '/out/r')
