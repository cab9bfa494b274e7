"""Dataflow through dump and load of the three kinds of file objects: the
abstract content (values, scale, metadata) is serialised to text that carries
the abstract values, parsed back, and compared component by component with the
original; for both formats in several spellings, to a string and to a stream,
before and after the object has been used (cached coefficient dictionary, list
of coefficients, printed form, validation, translation).  The parsed text must
have exactly the public content.  Unknown formats must raise a ValueError and
leave the stream alone; formatting options must have their effect."""
from .baselab import *
from vf.models import VFile

LEVEL = 'proof'
W = 'dump/load of file objects'
FMT = ['json', 'yaml', 'JSON', 'Yaml', 'YAML', 'Json', 'yAmL']
ODD = ['a', 'C9_bsmumu', '1sbsb', '12', '1e5', '0x1', 'null', 'yes', 'No',
       'a b', 'a: b', "it's", 'say "x"', 'back\\slash', '\u03b1_s', '', '~',
       '_hidden', '- x', '#c', '{x}', 'G', '1_2', '=', '*x', '&y', '!z', '%']


def wc(lab, meta):
    x, y, z = real('x'), real('y'), real('z')
    vals = {k: (x if i % 3 == 0 else {'Re': y, 'Im': z} if i % 3 == 1 else
                {'Im': y}) for i, k in enumerate(ODD)}
    vals.update({'num': 0.1, 'neg': -3, 'zero': 0, 'tiny': 1e-300,
                 'big': 123456789012345678, 'str': '1e-3', 'empty': {},
                 'part': {'Re': 1}, 'c': {'Re': 0.0, 'Im': -2.5e-7}})
    return lab.call(lab.wcxf.WC, 'E', 'B', SCALE, vals, **meta)


def eft(lab, meta):
    return lab.call(lab.wcxf.EFT, 'E', {
        's1': {}, 'sb': {'tex': r'b\to s', 'n': real('n')}, 'none': None,
        '12': {'x': [1, 2, {'y': None}]}, 'yes': {'real': True}}, **meta)


def secs():
    return {'s1': {k: ({'real': True, 'tex': r'\bar b_L'} if i % 3 == 0 else
                       None if i % 3 == 1 else {})
                   for i, k in enumerate(ODD)},
            's2': {'other': {'tex': '$'}}, 'empty': {}}


def basis(lab, meta):
    return lab.call(lab.wcxf.Basis, 'E', 'B', secs(), **meta)


def child(lab, meta):
    lab.call(lab.wcxf.Basis, 'E', 'P', {'s0': {'p': {}}, 's2': {'old': {}}})
    return lab.call(lab.wcxf.Basis, 'E', 'B', secs(), parent='P', **meta)


def plainwc(lab, meta):
    return lab.call(lab.wcxf.WC, 'E', 'B', '160', {}, **meta)


KINDS = [('coefficient file', wc, 'WC'), ('empty coefficient file', plainwc,
                                          'WC'), ('EFT', eft, 'EFT'),
         ('basis', basis, 'Basis'), ('child basis', child, 'Basis')]


def metas():
    return [{}, {'metadata': {'description': 'a\nb', 'n': real('meta'),
                              'authors': ['x', 'y'], 'none': None,
                              'flag': False, 'deep': {'k': [{'a': 1}, []]}},
                 'name': 'x', 'comment': None, 'version': 1, 'list': []}]


def contents(lab, o, cls):
    """what a user sees of the object"""
    d = {k: plain(lab.get(o, k)) for k in
         {'WC': ('eft', 'basis', 'scale', 'values'),
          'EFT': ('eft', 'sectors'),
          'Basis': ('eft', 'basis', 'sectors')}[cls]}
    for k in list(metas()[1]) + ['parent']:
        try:
            d[k] = plain(lab.get(o, k))
        except AttributeError:
            pass
    return d


def use(lab, o, cls):
    """the object is used before the dump"""
    if cls == 'WC':
        lab.get(o, 'dict')
        lab.call(lab.call(lab.wcxf.translator, 'E', 'B', 'B2'),
                 lambda x, scale, parameters: dict(x))
        lab.m(o, 'translate', 'B2')
    if cls == 'Basis':
        lab.get(o, 'all_wcs')
        lab.get(o, 'known_translators')
    if cls == 'EFT':
        lab.get(o, 'known_translators')


def safe_wc(lab, meta):
    """values that can all be read as numbers"""
    x, y = real('x'), real('y')
    return lab.call(lab.wcxf.WC, 'E', 'B', SCALE,
                    {k: x if i % 2 else {'Re': x, 'Im': y}
                     for i, k in enumerate(ODD)}, **meta)


def parse(lab, text, fmt):
    if fmt.lower() == 'json':
        return plain(lab.call(lab.mod('json').loads, text))
    return plain(lab.call(lab.mod('yaml').load, text))


def roundtrip(ctx, what, mk, cls, meta, fmt, stream, used, kw={}):
    def fn():
        lab = ctx.lab()
        lab.call(lab.wcxf.EFT, 'X', {})
        lab.call(lab.wcxf.Basis, 'X', 'X', {})
        o = mk(lab, meta)
        if used:
            use(lab, o, cls)
        c0 = contents(lab, o, cls)
        for k in list(metas()[1]):
            ctx.ok((k in meta) == (k in c0) and
                   (k not in meta or equal(c0[k], plain(meta[k]))), W,
                   '%s: the given metadata entry %s is not kept' % (what, k))
        if stream:
            f = VFile(lab.it, '/out/file', 'w')
            lab.it.vfs['/out/file'] = ''
            r = lab.m(o, 'dump', f, fmt, **kw) if stream == 'pos' else \
                lab.m(o, 'dump', stream=f, fmt=fmt, **kw)
            closed = f.closed
            text = lab.it.vfs['/out/file']
        else:
            text = lab.m(o, 'dump', **dict(kw, **({'fmt': fmt} if fmt !=
                                                   'json' else {})))
            closed = False
        c1 = contents(lab, o, cls)
        doc = parse(lab, text, fmt) if isinstance(text, str) else None
        C = getattr(lab.wcxf, cls)
        src = text
        if stream:
            src = VFile(lab.it, '/out/file', 'r')
        o2 = lab.call(lab.get(C, 'load'), src)
        return (lab, text, c0, c1, doc, contents(lab, o2, cls), closed,
                lab.it.stdout._data())
    name = '%s as %s%s%s' % (what, fmt, ' to a stream' if stream else '',
                             ', after use' if used else '')
    n = 0
    for tr, o in ctx.explore(fn, mode='split'):
        if not ctx.ok(o.ok, o.where() if not o.ok else W, '%s: dump and load '
                      '%s' % (name, o.show())):
            continue
        lab, text, c0, c1, doc, c2, closed, out = o.value
        n += 1
        ctx.ok(isinstance(text, str), W, name + ': no text is returned')
        ctx.ok(equal(c0, c1), W, name + ': dumping changes the object')
        ctx.ok(equal(c0, c2), W, name + ': content changes: ' + diff(c0, c2))
        ctx.ok(isinstance(doc, dict) and set(doc) == set(c0), W,
               name + ': the document has the entries %s instead of %s'
               % (sorted(doc or []), sorted(c0)))
        ctx.ok(equal(doc, c0), W, name + ': the document differs from the '
               'object: ' + diff(doc, c0))
        ctx.ok(not closed, W, name + ': the stream is closed')
        ctx.ok(not out, W, name + ': text goes to the standard output')
    return n


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + list(b):
            if k not in a or k not in b or not equal(a[k], b[k]):
                if k in a and k in b:
                    return '%s: %s' % (k, diff(a[k], b[k]))
                return 'entry %r' % (k,)
    return '%.60s / %.60s' % (a, b)


def run(ctx):
    n = 0
    for what, mk, cls in KINDS:
        with ctx.rule('round trip of a ' + what):
            for i, meta in enumerate(metas()):
                for fmt in FMT:
                    for stream in (None, 'kw', 'pos'):
                        n += roundtrip(ctx, what, mk, cls, meta, fmt, stream,
                                       False)
                    for stream in (None, 'kw'):
                        m = safe_wc if mk is wc else mk
                        n += roundtrip(ctx, what, m, cls, meta, fmt, stream,
                                       True)
    with ctx.rule('formatting options'):
        opts = [('json', {'indent': None}, lambda t: '\n' not in t),
                ('json', {'indent': 4}, lambda t: '\n    "' in t and
                 '\n  "' not in t),
                ('json', {'indent': 1}, lambda t: '\n "' in t),
                ('json', {'indent': 2, 'sort_keys': True},
                 lambda t: t.index('"basis"') < t.index('"eft"')
                 < t.index('"scale"') if '"scale"' in t else True),
                ('json', {'separators': (',', ' = ')}, None),
                ('yaml', {'default_flow_style': True},
                 lambda t: t.startswith('{')),
                ('yaml', {'default_flow_style': False},
                 lambda t: t.startswith(('basis:', 'eft:'))),
                ('yaml', {'explicit_start': True},
                 lambda t: t.startswith('---')),
                ('yaml', {'indent': 7}, lambda t: '\n       ' in t)]
        for what, mk, cls in KINDS[:1] + KINDS[2:4]:
            for fmt, kw, test in opts:
                if test is None:
                    def fn():
                        lab = ctx.lab()
                        return lab.m(mk(lab, {}), 'dump', fmt=fmt, **kw)
                    for tr, o in ctx.explore(fn, mode='split'):
                        ctx.ok(o.ok and '"eft" = "E"' in o.value, W,
                               '%s: option %s has no effect' % (what, kw))
                    continue
                for stream in (None, 'kw'):
                    n += roundtrip(ctx, what, mk, cls, {}, fmt, stream,
                                   False, kw)

                    def fn():
                        lab = ctx.lab()
                        o = mk(lab, {})
                        if not stream:
                            return lab.m(o, 'dump', fmt=fmt, **kw)
                        lab.it.vfs['/out/file'] = ''
                        lab.m(o, 'dump', VFile(lab.it, '/out/file', 'w'),
                              fmt, **kw)
                        return lab.it.vfs['/out/file']
                    for tr, o in ctx.explore(fn, mode='split'):
                        if ctx.ok(o.ok, o.where() if not o.ok else W,
                                  '%s with option %s %s' % (what, kw,
                                                            o.show())):
                            ctx.ok(test(o.value), W, '%s: option %s has no '
                                   'effect' % (what, kw),
                                   detail=o.value[:200])
    with ctx.rule('unknown format'):
        for what, mk, cls in KINDS:
            for fmt in ('xml', '', 'json ', 'yml', 'jsonl', 'wcxf', 'yaml1'):
                for stream in (None, 1):
                    def fn():
                        lab = ctx.lab()
                        o = mk(lab, {})
                        lab.it.vfs['/out/file'] = ''
                        kw = {'fmt': fmt}
                        if stream:
                            kw['stream'] = VFile(lab.it, '/out/file', 'w')
                        return lab, ctx.run(lambda: lab.m(o, 'dump', **kw))
                    for tr, o in ctx.explore(fn, mode='split'):
                        if not o.ok:
                            ctx.violation(o.where(), 'preparation '
                                          + o.show())
                            continue
                        lab, r = o.value
                        ctx.ok(not r.ok and isinstance(r.exc, ValueError), W,
                               '%s: format %r %s' % (what, fmt, r.show()))
                        ctx.ok(lab.it.vfs['/out/file'] == '', W,
                               '%s: format %r writes text' % (what, fmt))
    ctx.expect_at_least('round trips', n, 200)
