"""Dataflow through the loading of EFT, basis and coefficient files from text:
JSON and YAML documents (block and flow style, comments, anchors, quoted and
plain scalars, numbers as strings; abstract numbers are carried by the text)
given as string and as stream must give an object with exactly the content of
the document, registered under its name; documents that are not a mapping, lack
a required entry or are not valid in either format must raise an exception and
leave all registered objects as they were."""
from .baselab import *
from vf.models import VFile

LEVEL = 'proof'
W = 'wcxf/classes.py: WCxf.load'
X, Y = real('x'), real('y')


def T(s):
    return tokens.sym_token(s)


# (description, class, text, content)
def good():
    out = []
    sec = {'sb': {}, 'dF=1': {'desc': 'x'}, 's3': None}
    for js in ('{"eft": "E", "sectors": {"sb": {}, "dF=1": {"desc": "x"}, '
               '"s3": null}}',
               '\n\n {\n"sectors":{"sb":{},"dF=1":{"desc":"x"},"s3":null}\n,'
               '"eft":"E"}\n\n'):
        out.append(('JSON', 'EFT', js, {'eft': 'E', 'sectors': sec}))
    for ys in ('eft: E\nsectors:\n  sb: {}\n  dF=1:\n    desc: x\n  s3:\n',
               '# comment\n---\nsectors: {sb: {}, dF=1: {desc: x}, s3: ~}\n'
               'eft: "E"\n',
               "{'eft': 'E', 'sectors': {'sb': {}, 'dF=1': {desc: x}, "
               "s3: null}}"):
        out.append(('YAML', 'EFT', ys, {'eft': 'E', 'sectors': sec}))
    out.append(('JSON with metadata', 'EFT', '{"eft": "E", "sectors": {}, '
                '"metadata": {"description": "a \\u03b1 b", "n": %s}, '
                '"generator": "g"}' % T(X),
                {'eft': 'E', 'sectors': {}, 'generator': 'g',
                 'metadata': {'description': 'a \u03b1 b', 'n': X}}))
    bsec = {'sb': {'C1': {'real': True, 'tex': r'\bar b'}, 'C2': None,
                   '1sbsb': {}}, 'dF=1': {'C3': {'real': False}}}
    out.append(('JSON', 'Basis', json.dumps(
        {'eft': 'E', 'basis': 'B 1', 'sectors': bsec}),
        {'eft': 'E', 'basis': 'B 1', 'sectors': bsec}))
    out.append(('YAML', 'Basis', 'eft: E\nbasis: B 1\nsectors:\n  sb:\n'
                '    C1: {real: true, tex: "\\\\bar b"}\n    C2:\n'
                '    1sbsb: {}\n  dF=1:\n    C3:\n      real: no\n',
                {'eft': 'E', 'basis': 'B 1', 'sectors': bsec}))
    out.append(('YAML with anchors', 'Basis',
                'eft: E\nbasis: B\nmetadata: &m\n  description: >\n    a\n'
                '    b\nmore: *m\nsectors:\n  s: &s\n    C1: {}\n',
                {'eft': 'E', 'basis': 'B', 'sectors': {'s': {'C1': {}}},
                 'metadata': {'description': 'a b\n'},
                 'more': {'description': 'a b\n'}}))
    for sc in ('160', '1.6e+2', '"160"', '"1.6e2"', '160.0'):
        out.append(('JSON, scale %s' % sc, 'WC', '{"eft": "E", "basis": "B", '
                    '"scale": %s, "values": {}}' % sc,
                    {'eft': 'E', 'basis': 'B', 'scale': 160, 'values': {}}))
    for sc in ('160', '1.6e+2', '"160"', '1.6e2', '160.', '1_60'):
        out.append(('YAML, scale %s' % sc, 'WC', 'eft: E\nbasis: B\nscale: '
                    '%s\nvalues: {}\n' % sc,
                    {'eft': 'E', 'basis': 'B', 'scale': 160, 'values': {}}))
    for sc, v in (('-3.5', Fr(-7, 2)), ('0', 0), ('"-2"', -2)):
        out.append(('JSON, scale %s' % sc, 'WC', '{"eft": "E", "basis": "B", '
                    '"scale": %s, "values": {}}' % sc,
                    {'eft': 'E', 'basis': 'B', 'scale': v, 'values': {}}))
    num = {'a': X, 'b': {'Re': X, 'Im': Y}, 'c': {'Im': Y}, 'd': 2,
           'e': -1e-12, 'f': '1e-3', 'g': {}, 'C9_bsmumu': {'Re': 0, 'Im': 1}}
    out.append(('JSON, abstract values', 'WC',
                '{"eft": "E", "basis": "B", "scale": %s, "values": {"a": %s, '
                '"b": {"Re": %s, "Im": %s}, "c": {"Im": %s}, "d": 2, '
                '"e": -1e-12, "f": "1e-3", "g": {}, "C9_bsmumu": {"Re": 0, '
                '"Im": 1}}}' % (T(SCALE), T(X), T(X), T(Y), T(Y)),
                {'eft': 'E', 'basis': 'B', 'scale': SCALE, 'values': num}))
    out.append(('YAML, abstract values', 'WC',
                'values:\n  a: %s\n  b:\n    Re: %s\n    Im: %s\n  c: {Im: %s}'
                '\n  d: 2\n  e: -1.0e-12\n  f: 1e-3\n  g: {}\n  C9_bsmumu:\n'
                '    Im: 1\n    Re: 0\nscale: %s\nbasis: B\neft: E\n'
                % (T(X), T(X), T(Y), T(Y), T(SCALE)),
                {'eft': 'E', 'basis': 'B', 'scale': SCALE, 'values': num}))
    out.append(('YAML, abstract values and metadata', 'WC',
                'eft: E\nbasis: Warsaw up\nscale: 91\nvalues: {G: %s}\n'
                'metadata: {generator: x, n: %s}\n' % (T(Y), T(X)),
                {'eft': 'E', 'basis': 'Warsaw up', 'scale': 91,
                 'values': {'G': Y}, 'metadata': {'generator': 'x', 'n': X}}))
    return out


REQ = {'EFT': ('eft', 'sectors'), 'Basis': ('eft', 'basis', 'sectors'),
       'WC': ('eft', 'basis', 'scale', 'values')}
FULL = {'eft': 'NEW', 'basis': 'NEW', 'scale': 160, 'sectors': {'s': {}},
        'values': {'C': 1}}


def bad():
    for cls, req in REQ.items():
        full = {k: FULL[k] for k in req}
        for k in req:
            d = {q: v for q, v in full.items() if q != k}
            yield 'JSON without the entry ' + k, cls, json.dumps(d)
            yield 'YAML without the entry ' + k, cls, ''.join(
                '%s: %s\n' % (q, json.dumps(v)) for q, v in d.items())
        yield 'an empty mapping', cls, '{}'
        yield 'an empty file', cls, ''
        yield 'a comment only', cls, '# nothing\n'
        yield 'null', cls, 'null'
        yield 'a number', cls, '3'
        yield 'a text', cls, 'NEW'
        yield 'a list', cls, '[1, 2]'
        yield 'a list of one document', cls, json.dumps([full])
        yield 'a truncated JSON document', cls, json.dumps(full)[:-1]
        yield 'a truncated YAML document', cls, \
            'eft: NEW\nbasis: NEW\nscale: 160\nvalues: {a: 1\nsectors: {'
        yield 'two documents', cls, json.dumps(full) + json.dumps(full)
        yield 'two YAML documents', cls, '---\n%s\n---\n%s\n' % (
            json.dumps(full), json.dumps(full))
        yield 'a tab in YAML', cls, 'eft: NEW\n\tbasis: NEW\n'
    full = {k: FULL[k] for k in REQ['WC']}
    for s in ('"high"', 'null', '[1]', '{"Re": 1}', '""'):
        yield 'the scale ' + s, 'WC', json.dumps(full).replace('160', s)
    full = {k: FULL[k] for k in REQ['Basis']}
    yield 'an unknown parent', 'Basis', json.dumps(dict(full, parent='no'))
    yield 'a parent of another EFT', 'Basis', json.dumps(
        dict(full, parent='P'))


def attr(lab, o, a):
    try:
        return plain(lab.get(o, a))
    except AttributeError:
        return None


def registries(lab):
    out = {}
    for c in ('EFT', 'Basis', 'Translator', 'Matcher'):
        out[c] = {k: (id(v), {a: attr(lab, v, a) for a in
                              ('eft', 'sectors', 'basis')
                              if c in ('EFT', 'Basis')})
                  for k, v in dict(instances(lab, c)).items()}
    return out


def changed(a, b):
    """names whose registration differs"""
    return [(c, k) for c in a for k in set(a[c]) | set(b[c])
            if k not in a[c] or k not in b[c] or a[c][k][0] != b[c][k][0] or
            not equal(a[c][k][1], b[c][k][1])]


def prepare(ctx):
    lab = ctx.lab()
    lab.call(lab.wcxf.EFT, 'OLD', {'s': {}})
    lab.call(lab.wcxf.Basis, 'OLD', 'P', {'s': {'p': {}}})
    return lab


def source(lab, text, how):
    if how == 'string':
        return text
    lab.it.vfs['/in/file'] = text
    return VFile(lab.it, '/in/file', 'r')


def run(ctx):
    n = 0
    with ctx.rule('valid documents'):
        for what, cls, text, exp in good():
            for how in ('string', 'stream'):
                def fn():
                    lab = prepare(ctx)
                    before = registries(lab)
                    o = lab.call(lab.get(getattr(lab.wcxf, cls), 'load'),
                                 source(lab, text, how))
                    d = {}
                    for k in exp:
                        d[k] = plain(lab.get(o, k))
                    after = registries(lab)
                    reg = None
                    if cls != 'WC':
                        key = exp['eft'] if cls == 'EFT' else \
                            (exp['eft'], exp['basis'])
                        reg = instances(lab, cls).get(key) is o
                        before[cls][key] = after[cls].get(key)
                    return lab, o, d, reg, changed(before, after), \
                        lab.get(o, '__class__') is getattr(lab.wcxf, cls)
                name = '%s from a %s (%s)' % (cls, how, what)
                for tr, o in ctx.explore(fn, mode='split'):
                    n += 1
                    if not ctx.ok(o.ok, o.where() if not o.ok else W,
                                  '%s: loading %s' % (name, o.show())):
                        continue
                    lab, obj, d, reg, ch, kind = o.value
                    ctx.ok(kind, W, name + ': object of another class')
                    for k in exp:
                        ctx.ok(equal(d[k], exp[k]), W, '%s: entry %s differs '
                               'from the document' % (name, k),
                               detail='%s / %s' % (d[k], exp[k]))
                    ctx.ok(reg is not False, W,
                           name + ': not registered under its name')
                    ctx.ok(not ch, W, '%s: registration of %s changes'
                           % (name, ch))
    with ctx.rule('invalid documents'):
        for what, cls, text in bad():
            for how in ('string', 'stream'):
                def fn():
                    lab = prepare(ctx)
                    before = registries(lab)
                    err = None
                    try:
                        lab.call(lab.get(getattr(lab.wcxf, cls), 'load'),
                                 source(lab, text, how))
                    except Exception as e:
                        err = e
                    return err, changed(before, registries(lab))
                name = '%s from %s (%s)' % (cls, what, how)
                for tr, o in ctx.explore(fn, mode='split'):
                    n += 1
                    if not ctx.ok(o.ok, o.where() if not o.ok else W,
                                  '%s: %s' % (name, o.show())):
                        continue
                    err, ch = o.value
                    ctx.ok(err is not None, W, name + ': accepted')
                    ctx.ok(not ch, W, '%s: rejected, but the registration of '
                           '%s changes' % (name, ch))
    ctx.expect_at_least('documents', n, 150)
