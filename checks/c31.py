"""Dataflow into the printed forms: the text produced for coefficient files
and bases with abstract values and names of all shapes is split into headings
and table rows again; every coefficient must have exactly one row with its
name and exactly its value (coefficient file), or with its TeX code and type
in the section of its sector (basis)."""
import re
from .clilab import *
from vf import tokens

LEVEL = 'proof'
WC_, WB = 'wcxf/classes.py: WC.__str__', 'wcxf/classes.py: Basis.__str__'


def rows(t):
    out = []
    for l in t.splitlines():
        l = l.strip()
        if l.startswith('|') and l.endswith('|') and \
                set(l) - set('|-: ') and 'WC name' not in l:
            out.append([c.strip() for c in l[1:-1].split(' | ')])
    return out


def number(t):
    """abstract number from its printed form"""
    t = t.strip()
    m = tokens.TOK.fullmatch(t)
    if m:
        return lift(tokens.value(m))
    try:
        c = complex(t.replace(' ', ''))
        return lift(c.real) + I_ * lift(c.imag)
    except ValueError:
        return None


def wcs():
    x, y, z = real('x'), real('y'), real('z')
    yield 'values of all kinds', {
        'a': x, 'b': {'Re': y, 'Im': z}, 'c': {'Im': x}, 'd': {'Re': z},
        'e': {}, 'f': 0, 'g': 1.5, 'h': '2.5', 'i': {'Re': 1, 'Im': -2},
        'j': -3e-12, 'k': 1e30, 'l': {'Re': x, 'Im': 0}, 'm': x * x - y}
    yield 'one value', {'C9_bsmumu': x}
    yield 'no values', {}
    yield 'odd names', {k: real('v:' + k) for k in (
        'b->s::c1', 'a b', '_x', 'x_y_12', '1', 'Re{c}', 'phil3_11', 'G',
        'A*', 'l\u03b1', 'duneF_1111')}
    yield 'equal values', {'u': x, 'v': x, 'w': {'Re': x, 'Im': x}}
    yield 'many values', {'n%03d' % i: x * i + i for i in range(120)}
    yield 'vanishing values', {'a': 0.0, 'b': {'Re': 0, 'Im': 0}, 'c': x - x}


def wc_text(ctx, what, vals, how, scale, names=('E', 'B')):
    def fn():
        lab = ctx.lab()
        w = lab.call(lab.wcxf.WC, names[0], names[1], scale, dict(vals))
        if how == 'str':
            t = lab.call(lab.it.builtins['str'], w)
        elif how == 'format':
            t = lab.call(lab.get('{}', 'format'), w)
        elif how == 'twice':
            lab.m(w, '__str__')
            t = lab.m(w, '__str__')
        else:
            t = lab.m(w, how)
        return lab, t, {k: lift(v) for k, v in lab.get(w, 'dict').items()}
    n = 0
    name = 'coefficient file, %s' % what
    for tr, o in ctx.explore(fn, mode='split'):
        if not ctx.ok(o.ok and isinstance(o.value[1], str),
                      o.where() if not o.ok else WC_, '%s: printing %s'
                      % (name, o.show())):
            continue
        lab, t, d = o.value
        n += 1
        exp = {k: lift(v.get('Re', 0)) + I_ * lift(v.get('Im', 0))
               if isinstance(v, dict) else lift(float(v) if
                                                isinstance(v, str) else v)
               for k, v in vals.items()}
        head = t.split('|')[0]
        for what2, s in (('EFT', names[0]), ('basis', names[1])):
            ctx.ok(re.search(r'%s\W*`%s`' % (what2, re.escape(s)), head,
                             re.I), WC_, '%s: %s is not stated'
                   % (name, what2))
        m = re.search(r'scale\W*?\s(\S+)\s*GeV', head, re.I)
        v = number(m.group(1)) if m else None
        ctx.ok(v is not None and same(v, lift(scale)), WC_,
               '%s: the scale is not stated' % name, detail=head)
        rs = rows(t)
        got = {}
        for r in rs:
            k = r[0].strip('`')
            ctx.ok(len(r) == 2 and k not in got, WC_,
                   '%s: row %s is repeated or has %d cells'
                   % (name, k, len(r)))
            got[k] = r[-1]
        ctx.ok(set(got) == set(exp), WC_, '%s: rows for %s, coefficients %s'
               % (name, sorted(set(got) - set(exp)), sorted(set(exp) -
                                                            set(got))))
        for k in set(got) & set(exp):
            g = number(got[k])
            ctx.ok(g is not None and same(g, exp[k]), WC_,
                   '%s: row of %s has the value %s' % (name, k, got[k]),
                   detail='expected %s' % exp[k])
    return n


def bases():
    yield 'all kinds of entries', {
        's1': {'a': {'real': True, 'tex': r'\bar b_L s'}, 'b': None,
               'c': {}, 'd': {'real': False, 'tex': ''}, 'e': {'tex': '_x^y'},
               'f': {'real': True}, 'g': {'real': None}, 'h': {'other': 1}},
        's2': {'A': {'real': True, 'tex': 'q'}, 'B': {'tex': 'r'}}}
    yield 'no sectors', {}
    yield 'empty sectors', {'s1': {}, 's2': {'x': {}}, 's3': {}}
    yield 'only empty entries', {'s1': {'x': None}, 's2': {'y': None}}
    yield 'similar names', {'s': {'c1': {'real': True}, 'c10': {},
                                  'c11': {'real': True}},
                            'sb': {'C1': {}, 'xc1': {'real': True}}}
    yield 'many', {'s%d' % i: {'w%d_%d' % (i, j): (
        {'real': True, 'tex': 't%d_%d' % (i, j)} if j % 3 == 0 else
        {'tex': 't%d_%d' % (i, j)} if j % 3 == 1 else None)
        for j in range(7)} for i in range(9)}
    yield 'odd names', {'s b': {'b->s::Re{c}': {'real': True}, 'a b': {},
                                '1': {'tex': '1'}, '_': {}}}


METAS = [{}, {'metadata': {'description': 'Some text.'}},
         {'metadata': {}}, {'name': 'x', 'metadata': {'authors': ['x']}}]


def basis_text(ctx, what, secs, meta, how, parent=False):
    def fn():
        lab = ctx.lab()
        kw = dict(meta)
        if parent:
            lab.call(lab.wcxf.Basis, 'E', 'P', {
                'inherited': {'p1': {'real': True, 'tex': 'pp'}, 'p2': None}})
            kw['parent'] = 'P'
        b = lab.call(lab.wcxf.Basis, 'E', 'B', {k: dict(v) for k, v in
                                                secs.items()}, **kw)
        s0 = plain(lab.get(b, 'sectors'))
        if how == 'str':
            t = lab.call(lab.it.builtins['str'], b)
        elif how == 'twice':
            lab.m(b, '__str__')
            lab.get(b, 'all_wcs')
            t = lab.m(b, '__str__')
        else:
            t = lab.m(b, how)
        return lab, t, s0, plain(lab.get(b, 'sectors'))
    n = 0
    name = 'basis, %s' % what
    for tr, o in ctx.explore(fn, mode='split'):
        if not ctx.ok(o.ok and isinstance(o.value[1], str),
                      o.where() if not o.ok else WB, '%s: printing %s'
                      % (name, o.show())):
            continue
        lab, t, s0, s1 = o.value
        n += 1
        ctx.ok(equal(s0, s1), WB, '%s: printing changes the basis' % name)
        exp = dict(secs)
        if parent:
            exp = dict({'inherited': {'p1': {'real': True, 'tex': 'pp'},
                                      'p2': None}}, **secs)
        head, *parts = re.split(r'^###\s+', t, flags=re.M)
        ctx.ok('`B`' in head and '`E`' in head, WB,
               '%s: EFT or basis are not stated' % name)
        if 'description' in (meta.get('metadata') or {}):
            ctx.ok(meta['metadata']['description'] in head, WB,
                   '%s: the description is missing' % name)
        names = [p.splitlines()[0].strip().strip('`') for p in parts]
        ctx.ok(sorted(names) == sorted(exp), WB, '%s: sections %s instead of '
               '%s' % (name, sorted(names), sorted(exp)))
        ctx.ok(not rows(head), WB, '%s: rows outside the sections' % name)
        for s, p in zip(names, parts):
            got = {}
            for r in rows(p):
                k = r[0].strip('`')
                ctx.ok(len(r) == 3 and k not in got, WB, '%s: row %s is '
                       'repeated or has %d cells' % (name, k, len(r)))
                got[k] = r[1:]
            e = exp.get(s, {})
            ctx.ok(set(got) == set(e), WB, '%s: section %s has rows for %s '
                   'instead of %s' % (name, s, sorted(got), sorted(e)))
            for k in set(got) & set(e):
                d = e[k] or {}
                ctx.ok(got[k][0] == '$%s$' % d.get('tex', ''), WB,
                       '%s: row of %s has the TeX code %s' % (name, k,
                                                              got[k][0]))
                ctx.ok(got[k][-1] == ('R' if d.get('real') else 'C'), WB,
                       '%s: row of %s has the type %s' % (name, k,
                                                          got[k][-1]))
    return n


def run(ctx):
    n = 0
    with ctx.rule('coefficient files'):
        for what, vals in wcs():
            for how in ('str', 'twice', 'format', '_repr_markdown_'):
                n += wc_text(ctx, what, vals, how, SCALE)
        for names in (('SMEFT', 'Warsaw up'), ('WET-4', 'flavio'),
                      ('A.B', 'x_y')):
            n += wc_text(ctx, 'names %s/%s' % names, {'a': real('x')}, 'str',
                         160, names)
        for sc in (160, 1000.0, 91.1876, 1e16, real('s') * 2):
            n += wc_text(ctx, 'scale %s' % sc, {'a': real('x')}, 'str', sc)
    with ctx.rule('bases'):
        for what, secs in bases():
            for meta in METAS:
                for how in ('str', 'twice'):
                    n += basis_text(ctx, what, secs, meta, how)
            n += basis_text(ctx, what + ' (child)', secs, {}, 'str', True)
    ctx.expect_at_least('texts', n, 80)
