"""Dataflow through the card texts and the command: the texts of all four
combinations of model set and input scheme are read as parameter blocks and
compared with the tables of SM inputs of the models (spec/smeftsim_cards.json),
in every calling order; the command is run abstractly with all option
combinations, forms of the options and cutoff scales, and the written file must
consist of those blocks and the coefficient rows of the requested set with the
requested scale (C24's rows).  Input in another basis is run with abstract user
input; partitions in which the user does not insist, and invalid files, may not
write a file."""
import itertools
import json
import os
from .cardlab import *

LEVEL = 'proof'
C = 'wcxf/cli.py: smeftsim'
with open(os.path.join(os.path.dirname(__file__), '..', 'spec',
                       'smeftsim_cards.json')) as _f:
    CARDS = json.load(_f)
TITLE = {'alpha': 'ALPHA_INPUTS', 'mw': 'MW_INPUTS'}
DEFAULT = '/work/wcxf2smeftsim_param_card.dat'


def tables(ms, sc):
    return CARDS['preamble_' + ms + ('_mw' if sc == 'mw' else '')], \
        CARDS['postamble_' + ms]


def sm_blocks(ctx, what, blocks, table, where):
    for b, rows in table.items():
        got = blocks.get(b)
        if not ctx.ok(got is not None, where, '%s: no block %s' % (what, b)):
            continue
        for i, (v, nm) in rows.items():
            k = (i,) if b == 'DECAY' else tuple(map(int, i.split()))
            r = got.get(k)
            if not ctx.ok(r is not None, where, '%s: block %s has no entry %s'
                          ' (%s)' % (what, b, i, nm)):
                continue
            g = r.value
            if isinstance(g, Sym) and not g.isnan_ and g.is_const() and \
                    fine(r.fmt):
                g = float('%.6e' % float(g.const_value()))
            ctx.ok(isinstance(g, float) and close(g, v, 1e-9), where,
                '%s: block %s, entry %s (%s) is %s, expected %s'
                % (what, b, i, nm, r.value, v))
            ctx.ok(r.label.split()[:1] == nm.split()[:1], where,
                   '%s: block %s, entry %s is labelled %r, expected %r'
                   % (what, b, i, r.label, nm))
        for k in got:
            ctx.ok(' '.join(map(str, k)) in rows, where,
                   '%s: block %s has another entry %s' % (what, b, k))


def header(ctx, what, text, ms, sc, where):
    h = [l for l in text.split('\n') if l.startswith('#')]
    u = ' '.join(h).upper()
    ctx.ok('SET %s ' % ms in u and TITLE[sc] in u, where,
           '%s: the card does not state set %s and %s' % (what, ms, TITLE[sc]))
    o = 'B' if ms == 'A' else 'A'
    p = TITLE['mw' if sc == 'alpha' else 'alpha']
    ctx.ok('SET %s ' % o not in u and not re.search(r'\b%s\b' % p, u), where,
           '%s: the card states set %s or %s' % (what, o, p))


def texts(ctx):
    n = 0
    comb = [(m, s) for m in SETS for s in SCHEMES]
    orders = list(itertools.permutations(comb)) if ctx.thorough else \
        [tuple(comb), tuple(comb[::-1]), (comb[1], comb[3], comb[0], comb[2]),
         (comb[2], comb[1], comb[3], comb[0])]
    for order in orders:
        def fn():
            lab = ctx.lab()
            m = lab.mod('wcxf.converters.smeftsim')
            return [lab.call(m.smeftsim_card_text, *a) for a in order * 2]
        for tr, o in ctx.explore(fn):
            if not ctx.ok(o.ok, o.where() if not o.ok else W,
                          'card text: %s' % o.show()):
                continue
            for (ms, sc), (pre, post) in zip(order * 2, o.value):
                n += 1
                what = 'text of set %s, %s' % (ms, sc)
                header(ctx, what, pre, ms, sc, W)
                for t, tab, part in zip((pre, post), tables(ms, sc),
                                        ('start', 'end')):
                    w = '%s, %s' % (what, part)
                    ctx.ok(t[-1:] == '\n' or part == 'end', W,
                           '%s: no line end' % w)
                    b = read(ctx, t, w, W)
                    sm_blocks(ctx, w, b, tab, W)
                    ctx.ok(set(b) == set(tab), W, '%s: blocks %s'
                           % (w, sorted(set(b) ^ set(tab))))
    return n


def world(ctx, **cfg):
    lab = ctx.lab(**cfg)
    lab.call(lab.wcxf.EFT, 'SMEFT', {'s': {}})
    for b in ('Warsaw mass', 'Warsaw', 'Warsaw up'):
        lab.call(lab.wcxf.Basis, 'SMEFT', b, {'s': {k: {} for k in list(
            KEYS) + list(OTHER)}})
    lab.call(lab.wcxf.EFT, 'WET', {'s': {}})
    lab.call(lab.wcxf.Basis, 'WET', 'flavio', {'s': {'C7': {}}})
    return lab


_D = {}


def some():
    """a part of the coefficients"""
    if not _D:
        for i, (k, r) in enumerate(KEYS.items()):
            if i % 5 == 0 or '_' not in k:
                _D[k] = real('D:' + k) if r else cplx('D:' + k)
    return _D


def written(ctx, what, text, ms, sc, d, lam):
    if not ctx.ok(isinstance(text, str) and text != '', C,
                  '%s: no card is written' % what):
        return 0
    header(ctx, what, text, ms, sc, C)
    b = read(ctx, text, what, C)
    pre, post = tables(ms, sc)
    sm_blocks(ctx, what, b, pre, C)
    sm_blocks(ctx, what, b, post, C)
    judge(ctx, what, b, ms, sc, d, lam, C)
    kinds = [0 if x in pre else 2 if x in post else 1
             if x in coefficient_blocks(ms) else 3 for x in b]
    ctx.ok(3 not in kinds, C, '%s: another block %s' % (
        what, [x for x, k in zip(b, kinds) if k == 3]))
    ctx.ok(kinds == sorted(kinds), C, '%s: the card does not start and end '
           'with the parameters of the model set' % what)
    return 1


def command(ctx, name, args, ms='A', sc='alpha', lam=None, out=DEFAULT,
            fmt='json', std=False, old=None, pre=None):
    lam = 1000 if lam is None else lam
    n = 0

    def fn():
        lab = world(ctx)
        t = dumps(lab, {'eft': 'SMEFT', 'basis': 'Warsaw mass',
                        'scale': SCALE, 'values': vals(some())}, fmt)
        fs = {} if std else {'/in/d': t}
        if old is not None:
            fs[out] = old
        if pre:
            process(ctx, lab, 'smeftsim', pre, files={'/in/d': t})
            lab.it.vfs.pop(DEFAULT, None)
        return process(ctx, lab, 'smeftsim', args, stdin=t if std else '',
                       files=fs)
    for tr, o in ctx.explore(fn, limit=32):
        if not ctx.ok(o.ok, C, '%s: %s' % (name, o.show())):
            continue
        p = o.value
        if not ctx.ok(p.status == 0, p.where(C), '%s: %s' % (name, p.show())):
            continue
        ctx.ok(p.changed == [out], C, '%s: changes the files %s instead of %s'
               % (name, p.changed, out))
        n += written(ctx, name, p.files.get(out), ms, sc, some(), lam)
    return n


def forms(ctx):
    """(name, args, set, scheme, scale, output)"""
    for ms, sc, lam, out in itertools.product(
            (None, 'A', 'B'), (None, 'alpha', 'mw'), (None, '2500.5'),
            (None, '/out/card')):
        a = []
        for o, v in (('--model-set', ms), ('--input-scheme', sc),
                     ('--cutoff-scale', lam), ('--output', out)):
            if v is not None:
                a += [o, v]
        k = len(a) // 2 % 3
        a = [['/in/d'] + a, a + ['/in/d'], a[2:] + ['/in/d'] + a[:2]][k]
        yield ' '.join(a), a, ms or 'A', sc or 'alpha', \
            2500.5 if lam else None, out or DEFAULT


def commands(ctx, part, k):
    n = 0
    for i, (nm, a, ms, sc, lam, out) in enumerate(forms(ctx)):
        if i % k != part:
            continue
        n += command(ctx, nm, a, ms, sc, lam, out, ('json', 'yaml')[i % 2],
                     old='old card\n' * 9000 if i % 3 == 0 else None)
    return n


def more(ctx):
    n = 0
    L = Sym.atom('cutoff', positive=True)
    n += command(ctx, 'abstract scale', [
        '/in/d', '--cutoff-scale', tokens.sym_token(L)], lam=L)
    n += command(ctx, 'abstract scale, set B', [
        '--model-set=B', '--cutoff-scale=' + tokens.sym_token(L), '/in/d'],
        'B', lam=L)
    for v, x in (('1e4', 10000), ('91.1876', 91.1876), ('1', 1),
                 ('0', 0)):
        n += command(ctx, 'scale ' + v, ['/in/d', '--cutoff-scale', v],
                     lam=x)
    n += command(ctx, 'scale at which the file is given', [
        '/in/d', '--cutoff-scale=500', '--input-scheme=mw',
        '--model-set=B', '--output=/out/x.dat'], 'B', 'mw', 500,
        '/out/x.dat')
    n += command(ctx, 'standard input', ['-', '--model-set', 'B'], 'B',
                 std=True)
    n += command(ctx, 'second conversion', ['/in/d'], pre=[
        '/in/d', '--model-set', 'B', '--input-scheme', 'mw',
        '--cutoff-scale', '5'])
    n += command(ctx, 'second conversion, B mw', [
        '/in/d', '--model-set', 'B', '--input-scheme', 'mw'], 'B', 'mw',
        pre=['/in/d'])
    return n


def other_basis(ctx):
    n = 0
    d = some()
    for eft, basis in (('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up'),
                       ('WET', 'flavio')):
        keys = {'abstract': None, 'i\n': True, 'I\n': True, 'x\n': False,
                '\n': False, '': False, 'ii\n': False, 'y\n': False,
                'q': False, 'no\ni\n': False}
        for key, insist in keys.items():
            f = d if eft == 'SMEFT' else {}
            name = 'file in the basis %s, answer %r' % (basis, key)

            def fn():
                lab = world(ctx, **({'input': 'abstract'}
                                    if key == 'abstract' else {}))
                t = dumps(lab, {'eft': eft, 'basis': basis, 'scale': SCALE,
                                'values': vals(f)}, 'json')
                return process(ctx, lab, 'smeftsim', ['/in/d'], stdin=key
                               if key != 'abstract' else '',
                               files={'/in/d': t, DEFAULT: 'old card'})
            for tr, o in ctx.explore(fn, limit=64):
                if not ctx.ok(o.ok, C, '%s: %s' % (name, o.show())):
                    continue
                n += 1
                p = o.value
                ins = insist
                if ins is None:
                    # conditions on the answer in this partition
                    eq = [t for t in tr if t[1] and any(
                        x in repr(t[0]) for x in ("'i'", "'I'"))]
                    ins = bool(eq)
                ctx.sample('%s: %s %s' % (name, [
                    (t[0], t[1]) for t in tr], p.changed))
                if ins:
                    if ctx.ok(p.status == 0, p.where(C), '%s: %s'
                              % (name, p.show())):
                        written(ctx, name, p.files.get(DEFAULT), 'A',
                                'alpha', f, 1000)
                else:
                    ctx.ok(not p.changed, C, '%s: the files %s are written '
                           'although the user does not insist'
                           % (name, p.changed))
    return n


def rejected(ctx):
    n = 0
    good = {'eft': 'SMEFT', 'basis': 'Warsaw mass', 'scale': 1000.0,
            'values': {'G': 1e-6}}
    for what, a, doc in (
            ('unknown coefficient', [], dict(good, values={'x': 1})),
            ('unknown basis', [], dict(good, basis='X')),
            ('unknown EFT', [], dict(good, eft='X')),
            ('not a coefficient file', [], {'eft': 'SMEFT'}),
            ('malformed', [], '{'), ('empty', [], ''),
            ('unknown set', ['--model-set', 'C'], good),
            ('unknown scheme', ['--input-scheme', 'gf'], good),
            ('scale that is no number', ['--cutoff-scale', 'TeV'], good),
            ('unknown option', ['--scale', '10'], good)):
        def fn():
            lab = world(ctx)
            t = doc if isinstance(doc, str) else dumps(lab, doc, 'json')
            return process(ctx, lab, 'smeftsim', ['/in/d'] + a, stdin='i\n',
                           files={'/in/d': t})
        for tr, o in ctx.explore(fn):
            if not ctx.ok(o.ok, C, '%s: %s' % (what, o.show())):
                continue
            n += 1
            ctx.ok(o.value.status != 0, C, '%s: %s' % (what, o.value.show()))
            ctx.ok(not o.value.changed, C, '%s: the files %s are written'
                   % (what, o.value.changed))
    return n


def run(ctx):
    k = 12
    jobs = [('command %d' % i, lambda i=i: commands(ctx, i, k))
            for i in range(k)]
    jobs += [('further commands', lambda: more(ctx)),
             ('other basis', lambda: other_basis(ctx)),
             ('rejected', lambda: rejected(ctx)),
             ('texts', lambda: texts(ctx))]
    v = ctx.par(jobs)
    ctx.expect_at_least('cards', sum(x or 0 for x in v), 36 + 9 + 30 + 10 +
                        32)
