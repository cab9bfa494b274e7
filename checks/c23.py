"""Dataflow through the EOS converter: parameter directories with relevant and
other files, coefficient files with abstract values (every name alone, all,
none; electron and muon coefficients equal, different, missing) are converted
abstractly, by function and by the command; every written entry must be
identically SM central value plus the part of the coefficient that its name
denotes, for central, min and max, and the set of parameters must be that of
the relevant files.  The traces are partitioned on whether the lepton-flavour
coefficients agree; disagreement must be rejected."""
import itertools
import re
from .clilab import *

LEVEL = 'proof'
W = 'wcxf/converters/eos.py'
P = '/usr/share/eos/parameters/'
LNU = ['cVL', 'cVR', 'cSL', 'cSR', 'cT']
FF = ['c7', "c7'", 'c9', 'c10', "c9'", 'cS', 'cP', 'cT', 'cT5', 'c8']


def sm_files():
    """{file name: document}; central, min, max are different constants"""
    def e(k, i):
        return {'central': real('SM:' + k), 'min': real('min:' + k),
                'max': real('max:' + k)}
    f1 = {'@metadata@': {'wcxf-relevant': True}}
    for k in ['b->s::c%d' % i for i in range(1, 7)]:
        f1[k] = e(k, 0)
    for t in ('b->s', 'b->see', 'b->smumu', 'b->staunutau', 'b->ctaunutau'):
        for c in FF[:6]:
            for q in ('Re', 'Im'):
                k = '%s::%s{%s}' % (t, q, c)
                f1[k] = e(k, 1)
    f2 = {'@metadata@': {'wcxf-relevant': True, 'title': 'x'}}
    for t in ('b->ulnu', 'b->clnu', 's->ulnu'):
        for c in LNU:
            for q in ('Re', 'Im'):
                k = '%s::%s{%s}' % (t, q, c)
                f2[k] = e(k, 2)
    other = {'mass::b(MSbar)': e('mb', 3), 'b->s::Re{c99}': e('c99', 3)}
    return {'a.yaml': f1, 'z.yaml': f2,
            'no-meta.yaml': dict(other),
            'not-relevant.yaml': dict(other, **{'@metadata@': {
                'wcxf-relevant': False}}),
            'other-meta.yaml': dict(other, **{'@metadata@': {'x': True}}),
            'readme.txt': 'text', 'old.yml': dict(f1, x=e('x', 1)),
            'copy.yaml.bak': '{broken'}


def relevant(files):
    d = {}
    for n, f in files.items():
        if n.endswith('.yaml') and not isinstance(f, str) and \
                f.get('@metadata@', {}).get('wcxf-relevant'):
            d.update({k: v for k, v in f.items() if k != '@metadata@'})
    return d


NAMES = ['b->s::c%d' % i for i in range(1, 7)] + \
    ['%s::%s' % (t, c) for t in ('b->s', 'b->see', 'b->smumu',
                                 'b->staunutau', 'b->ctaunutau')
     for c in FF[:6]] + \
    ['%s%s::%s' % (t, l, c) for t in ('b->u', 'b->c', 's->u')
     for l in ('enue', 'munumu') for c in LNU] + \
    ['b->utaunutau::cVL', 'unrelated', 'b->s::c99']


def part(z, q):
    z = lift(z)
    return z.real if q == 'Re' else z.imag


def expect(key, d):
    """(value, forms that have to vanish)"""
    if key in d:
        return part(d[key], 'Re'), []
    m = re.fullmatch(r'(.*)(Re|Im)\{([^}]+)\}(.*)', key)
    if m:
        n = m.group(1) + m.group(3) + m.group(4)
        if n in d:
            return part(d[n], m.group(2)), []
        e, mu = n.replace('lnu', 'enue'), n.replace('lnu', 'munumu')
        if e in d or mu in d:
            return part(d.get(e, 0), m.group(2)), [
                lift(d.get(e, 0)) - lift(d.get(mu, 0))]
    return lift(0), []


def scenarios():
    yield 'no coefficients', {}
    lfu = {n: n.replace('munumu', 'enue') for n in NAMES}
    full = {n: cplx('C:' + lfu[n]) for n in NAMES}
    yield 'all coefficients', full
    yield 'all coefficients real', {n: real('R:' + lfu[n]) for n in NAMES}
    yield 'literal values', {n: complex(i + 1, -i) for i, n in enumerate(
        NAMES) if 'nu' not in n}
    seen = set()
    for n in NAMES:
        if lfu[n] in seen:
            continue
        seen.add(lfu[n])
        g = [m for m in NAMES if lfu[m] == lfu[n]]
        yield 'only ' + n, {m: full[m] for m in g}
    for n in NAMES:
        if 'enue' in n and '::cT' not in n or n == 'b->uenue::cT':
            mu = n.replace('enue', 'munumu')
            a, b = cplx('C:' + n), cplx('C:' + mu)
            yield 'different ' + n, {n: a, mu: b}
            yield 'only electron ' + n, {n: a}
            yield 'only muon ' + mu, {mu: b}
    n, mu = 'b->cenue::cSL', 'b->cmunumu::cSL'
    a, b = real('re'), real('im')
    yield 'different in imaginary part', {n: a + I_ * b, mu: a - I_ * b}
    yield 'different in real part', {n: a + I_ * b, mu: a * 2 + I_ * b}
    yield 'opposite', {n: cplx('cz'), mu: -cplx('cz')}
    yield 'vanishing electron', {n: 0, mu: 0}
    yield 'vanishing muon only', {mu: 0}
    yield 'real and complex', {n: a, mu: a + I_ * b}
    yield 'lepton-universal coefficient itself', {
        'b->clnu::cVL': cplx('vz'), 'b->ulnu::Re{cVL}': real('direct')}
    yield 'tau only', {'b->utaunutau::cVL': cplx('tz')}
    yield 'real part given by name', {'b->s::Re{c7}': real('r7'),
                                      'b->s::c9': cplx('c9')}
    yield 'mixed', {'b->s::c7': cplx('c7'), 'b->uenue::cVL': cplx('vl'),
                    'b->umunumu::cVL': cplx('vl'), 'b->smumu::c9': real('x'),
                    'b->cenue::cT': real('t'), 'b->cmunumu::cT': real('t')}


def judge(ctx, name, d, sm, o, tr, W=W):
    """o: Outcome with {key: {central, min, max}}"""
    ex = {k: expect(k, d) for k in sm}
    diffs = [f for v, fs in ex.values() for f in fs if f.t]
    state = [nonzero(f, tr) for f in diffs]
    if not o.ok:
        ctx.ok(isinstance(o.exc, ValueError), o.where(), '%s: %s'
               % (name, o.show()))
        return ctx.ok(any(s is not False for s in state) and True in state,
                      o.where(), '%s: rejected although the electron and '
                      'muon coefficients agree' % name)
    if not ctx.ok(all(s is False for s in state), W, '%s: accepted although '
                  'the electron and muon coefficients differ' % name):
        return
    got = o.value
    if not ctx.ok(isinstance(got, dict) and set(got) == set(sm), W,
                  '%s: wrong parameters: missing %s, additional %s' % (
                      name, sorted(set(sm) - set(got or ()))[:5],
                      sorted(set(got or ()) - set(sm))[:5])):
        return
    for k in sm:
        exp = lift(sm[k]['central']) + ex[k][0]
        g = got[k]
        ctx.ok(set(g) == {'central', 'min', 'max'}, W,
               '%s: entries %s of %s' % (name, sorted(g), k))
        for q in ('central', 'min', 'max'):
            v = g.get(q)
            ctx.ok(isinstance(v, (Sym, int, float)) and
                   vanishes(lift(v) - exp, tr), W,
                   '%s: %s of %s is wrong' % (name, q, k),
                   detail='expected %s, got %s' % (exp, g.get(q)))


def vanishes(z, tr):
    z = settled({0: z}, tr)[0]
    return not z.t or nonzero(z, tr) is False


def vals(d):
    return {k: {'Re': v.real, 'Im': v.imag} if isinstance(v, complex) else
            ({'Re': lift(v).real, 'Im': lift(v).imag}
             if not lift(v).is_real() else v) for k, v in d.items()}


def write(lab, files, at=P):
    for n, f in files.items():
        lab.it.vfs[at + n] = f if isinstance(f, str) else dumps(
            lab, f, 'yaml')


def functions(ctx, name, d, small):
    files = sm_files()
    sm = relevant(files)
    if small:
        sm = {k: v for k, v in sm.items() if small(k)}
    n = 0

    def fn():
        lab = ctx.lab()
        m = lab.mod('wcxf.converters.eos')
        w = lab.call(lab.wcxf.WC, 'WET', 'EOS', SCALE, vals(d))
        before = plain(lab.get(w, 'values'))
        s = {k: dict(v) for k, v in sm.items()}
        o = ctx.run(lambda: plain(lab.call(m.wcxf2eos, w, s)))
        return o, equal(before, plain(lab.get(w, 'values'))), \
            equal(s, sm)
    for tr, o in ctx.explore(fn, mode='split', limit=64):
        if not ctx.ok(o.ok, W, '%s: %s' % (name, o.show())):
            continue
        r, a, b = o.value
        n += 1
        ctx.ok(a and b, W, '%s: the input is changed' % name)
        judge(ctx, name, d, sm, r, tr)
    return n


def sm_reading(ctx):
    n = 0
    files = sm_files()
    sets = [('all files', files), ('no files', {}),
            ('no relevant file', {k: v for k, v in files.items()
                                  if k not in ('a.yaml', 'z.yaml')}),
            ('only first', {'a.yaml': files['a.yaml']}),
            ('only second', {'z.yaml': files['z.yaml']})]
    for what, fs in sets:
        for rev in (False, True):
            def fn():
                lab = ctx.lab(glob_order=lambda l: sorted(l, reverse=rev))
                write(lab, fs)
                m = lab.mod('wcxf.converters.eos')
                r = [plain(lab.call(m.get_sm_wcs, p))
                     for p in (P, P[:-1], P)]
                return r
            for tr, o in ctx.explore(fn, mode='split'):
                n += 1
                if ctx.ok(o.ok, o.where() if not o.ok else W,
                          'SM files, %s: %s' % (what, o.show())):
                    ctx.ok(all(equal(r, relevant(fs)) for r in o.value), W,
                           'SM files, %s: wrong parameters' % what)
    return n


# ----------------------------------------------------------------- command
def world(ctx, files=None, at=P):
    lab = ctx.lab()
    lab.call(lab.wcxf.EFT, 'WET', {'s': {}})
    lab.call(lab.wcxf.Basis, 'WET', 'EOS', {'s': {k: {} for k in NAMES + [
        'b->clnu::cVL', 'b->ulnu::Re{cVL}', 'b->s::Re{c7}']}})
    write(lab, sm_files() if files is None else files, at)
    return lab


def command(ctx, name, d, args, out, std=False, fmt='json', at=P,
            dirs=()):
    sm = relevant(sm_files())
    n = 0

    def fn():
        lab = world(ctx, at=at)
        for x in dirs:
            lab.it.vfs[x] = DIR
        t = dumps(lab, {'eft': 'WET', 'basis': 'EOS', 'scale': SCALE,
                        'values': vals(d)}, fmt)
        p = process(ctx, lab, 'eos', args, stdin=t if std else
                    '{"wrong": 1}', files={} if std else {'/in/d': t})
        tx = p.out if out is None else p.files.get(out, '')
        return p, loads(ctx, lab, tx, 'yaml')
    C = 'wcxf/cli.py: eos'
    for tr, o in ctx.explore(fn, mode='split', limit=64):
        if not ctx.ok(o.ok, C, '%s: %s' % (name, o.show())):
            continue
        p, (ok, doc) = o.value
        n += 1
        from vf.check import Outcome
        if p.status != 0:
            e = p.o.exc if not p.o.ok else ValueError()
            judge(ctx, name, d, sm, Outcome(exc=e), tr, C)
            continue
        if ctx.ok(ok, C, '%s: the output is not one YAML document' % name):
            judge(ctx, name, d, sm, Outcome(doc), tr, C)
        ctx.ok(p.changed == ([out] if out else []), C,
               '%s: changes the files %s' % (name, p.changed))
        ctx.ok(not (out and p.out), C, '%s: text on the standard output'
               % name)
    return n


def rejected(ctx, name, args, doc, files=None, dirs=(), allow=()):
    C = 'wcxf/cli.py: eos'

    def fn():
        lab = world(ctx, files)
        for x in dirs:
            lab.it.vfs[x] = DIR
        t = doc if isinstance(doc, str) else dumps(lab, doc, 'json')
        return process(ctx, lab, 'eos', args, stdin=t, files={'/in/d': t})
    n = 0
    for tr, o in ctx.explore(fn, mode='split'):
        if not ctx.ok(o.ok, C, '%s: %s' % (name, o.show())):
            continue
        n += 1
        p = o.value
        ctx.ok(p.status != 0, C, '%s: %s' % (name, p.show()))
        t = [p.files.get(f, '') for f in p.changed] + [p.out]
        ctx.ok(not any(x for x in t if isinstance(x, str) and
                       'central' in x), C, '%s: parameters are written'
               % name)
    return n


def run(ctx):
    n = 0
    with ctx.rule('Standard Model files'):
        n += sm_reading(ctx)
    with ctx.rule('sum of SM and new physics'):
        for name, d in scenarios():
            small = None
            n += functions(ctx, name, d, small)
    with ctx.rule('only some parameters in the SM files'):
        for name, d in list(scenarios())[:3]:
            for t in ('b->s::', 'b->ulnu', 'b->clnu::Im', 'b->s::Re{c7}'):
                n += functions(ctx, name + ' / ' + t, d,
                               lambda k: k.startswith(t))
        for name, d in scenarios():
            if name.startswith(('different b->u', 'only electron b->u')):
                n += functions(ctx, name + ' without that parameter', d,
                               lambda k: k.startswith(('b->c', 'b->s')))
        for name, d in scenarios():
            if 'erent' in name or name.startswith(
                    ('only electron', 'only muon', 'opposite', 'vanishing',
                     'real and', 'mixed', 'tau')):
                for q in ('Re', 'Im'):
                    n += functions(ctx, name + ', only %s parameters' % q, d,
                                   lambda k: q + '{' in k)
    with ctx.rule('command'):
        sc = dict(scenarios())
        for s in ('all coefficients', 'no coefficients', 'mixed',
                  'different b->uenue::cVL', 'only electron b->cenue::cVL'):
            for fmt in ('json', 'yaml'):
                for lbl, a, out, std in (
                        ('file to standard output', ['/in/d'], None, 0),
                        ('standard input', [], None, 1),
                        ('standard input (-)', ['-'], None, 1),
                        ('output file', ['/in/d', '--output', '/out/x'],
                         '/out/x', 0),
                        ('output first', ['--output=/out/x', '/in/d'],
                         '/out/x', 0)):
                    n += command(ctx, '%s, %s' % (s, lbl), sc[s], a, out,
                                 std, fmt)
            n += command(ctx, s + ', EOS home', sc[s],
                         ['/in/d', '--eoshome', '/home/eos'],
                         '/home/eos/parameters/wcxf.yaml',
                         dirs=['/home/eos/parameters'])
            n += command(ctx, s + ', EOS prefix', sc[s],
                         ['/in/d', '--eosprefix', '/opt/eos'], None,
                         at='/opt/eos/share/eos/parameters/')
            n += command(ctx, s + ', EOS prefix, home and stdin', sc[s],
                         ['--eosprefix=/opt/e', '--eoshome=/h', '-'],
                         '/h/parameters/wcxf.yaml', True, 'yaml',
                         '/opt/e/share/eos/parameters/', ['/h/parameters'])
    with ctx.rule('command failures'):
        good = {'eft': 'WET', 'basis': 'EOS', 'scale': 1.0,
                'values': {'b->s::c7': 0.1}}
        for what, a, d in (
                ('unknown coefficient', [], dict(good, values={'x': 1})),
                ('unknown basis', [], dict(good, basis='X')),
                ('unknown EFT', [], dict(good, eft='X')),
                ('not a coefficient file', [], {'eft': 'WET'}),
                ('malformed', [], '{'), ('empty', [], ''),
                ('missing file', ['/in/none'], good),
                ('non-numeric value', [], dict(good, values={
                    'b->s::c7': 'x'})),
                ('unknown option', ['/in/d', '--xyz'], good),
                ('output and home', ['/in/d', '--output', '/out/x',
                                     '--eoshome', '/h'], good),
                ('home without directory', ['/in/d', '--eoshome', '/none'],
                 good)):
            n += rejected(ctx, what, a, d, dirs=['/h/parameters'])
    ctx.expect_at_least('conversions', n, 150)
