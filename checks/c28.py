"""Abstract import of the package over model definition directories: for every
listing order of the directories, several sets of files (any number of EFTs,
bases and child bases, names with dots and blanks, files of other kinds beside
them, no files at all), the registered EFTs and bases must be exactly those of
the files, with the content of the files (children: merged with the parent)."""
import itertools
from .clilab import *
from vf.lab import Lab, REPO

LEVEL = 'proof'
W = 'wcxf/__init__.py'
D = REPO + '/wcxf/bases/'


def eft(n, i=0):
    return {'eft': n, 'sectors': {'s%d' % i: {}, 'sb': {'tex': 'x'}},
            'metadata': {'description': 'EFT ' + n, 'n': real('n' + n)}}


def basis(e, n, parent=None, i=0):
    d = {'eft': e, 'basis': n, 'sectors': {
        's%d' % i: {'C_%s' % n: {'real': True}, 'x': None, 'y': {}},
        'own': {n + str(i): {'tex': r'\alpha', 'v': real('v' + n)}}},
        'metadata': {'description': n}}
    if parent:
        d['parent'] = parent
    return d


SETS = [
    ('two of each', {
        'wet.eft.json': eft('WET'), 'smeft.eft.json': eft('SMEFT', 1),
        'wet.b1.basis.json': basis('WET', 'b1'),
        'wet.b2.basis.json': basis('WET', 'b2'),
        'smeft.b1.basis.json': basis('SMEFT', 'b1', i=2),
        'child/wet.c1.basis.json': basis('WET', 'c1', 'b1', 1),
        'child/wet.c2.basis.json': basis('WET', 'c2', 'b2')}),
    ('odd names', {
        'a b.eft.json': eft('A'), 'WET5.eft.json': eft('W5'),
        '4.eft.json': eft('four', 2), 'W.5.1.eft.json': eft('W.5.1'),
        'child/v1.2.c.x.basis.json': basis('A', 'dots', 'zz'), 'x-y_z.eft.json': eft('xyz'),
        'child/Up.basis.json': basis('A', 'Up', 'zz', 4),
        'Q.basis.json': basis('W5', 'q'), '_.basis.json': basis('W5', '_'),
        'wet-4.eft.json': eft('WET-4', 1),
        'z.Warsaw up.basis.json': basis('A', 'Warsaw up'),
        'x.basis.json': basis('A', 'zz'), '1.basis.json': basis('A', '1'),
        'A.B.C.basis.json': basis('WET-4', 'Warsaw up', i=3),
        'child/0.basis.json': basis('A', 'first', 'zz'),
        'child/x.basis.json': basis('A', 'last', '1', 2)}),
    ('child sorted before its parent', {
        'zz.eft.json': eft('Z'), 'zz.p.basis.json': basis('Z', 'p'),
        'child/aa.c.basis.json': basis('Z', 'c', 'p', 1)}),
    ('two children of one parent', {
        'e.eft.json': eft('E'), 'e.p.basis.json': basis('E', 'p'),
        'child/e.c.basis.json': basis('E', 'c', 'p', 1),
        'child/e.d.basis.json': basis('E', 'd', 'p', 0),
        'child/e.e.basis.json': basis('E', 'e', 'p', 5)}),
    ('other files', {
        'e.eft.json': eft('E'), 'e.p.basis.json': basis('E', 'p'),
        'README.md': '# text', 'schema.json': '{broken',
        'e.eft.json.bak': '{broken', 'e.basis.yml': '{broken',
        'child/README': 'x', 'child/notes.json': '{broken',
        'other/x.basis.json': '{broken', 'translators/t.json': '{broken',
        'child/e.c.basis.json': basis('E', 'c', 'p', 1)}),
    ('EFT without bases', {'e.eft.json': eft('E'), 'f.eft.json': eft('F'),
                           'g.eft.json': eft('G', 1)}),
    ('no child directory', {'e.eft.json': eft('E'),
                            'e.b.basis.json': basis('E', 'b'),
                            'e.c.basis.json': basis('E', 'c')}),
    ('no definitions', {}),
    ('many', dict(
        [('e%d.eft.json' % i, eft('E%d' % i)) for i in range(6)] +
        [('e%d.b%d.basis.json' % (i, j), basis('E%d' % i, 'b%d' % j))
         for i in range(6) for j in range(3)] +
        [('child/e%d.c%d.basis.json' % (i, j),
          basis('E%d' % i, 'c%d' % j, 'b%d' % j, 1))
         for i in range(6) for j in range(3)])),
]


def orders(names):
    """listing orders: all permutations for small sets, else a family in which
    every pair occurs in both orders"""
    names = sorted(names)
    if len(names) <= 4:
        for p in itertools.permutations(names):
            yield {k: i for i, k in enumerate(p)}
        return
    seqs = [names, names[::-1]]
    for k in range(1, len(names), max(1, len(names) // 6)):
        seqs.append(names[k:] + names[:k])
        seqs.append((names[k:] + names[:k])[::-1])
    seqs.append(names[1::2] + names[::2])
    seqs.append(names[::2][::-1] + names[1::2])
    for s in seqs:
        yield {k: i for i, k in enumerate(s)}


def expected(files):
    efts, bases = {}, {}
    for f, d in files.items():
        if isinstance(d, str):
            continue
        if f.endswith('.eft.json'):
            efts[d['eft']] = d
        elif 'parent' not in d:
            bases[d['eft'], d['basis']] = d
    for f, d in files.items():
        if isinstance(d, dict) and 'parent' in d:
            s = dict(bases[d['eft'], d['parent']]['sectors'])
            s.update(d['sectors'])
            bases[d['eft'], d['basis']] = dict(d, sectors=s)
    return efts, bases


def load(ctx, files, order, cwd=None):
    rank = lambda p: order.get(p[len(D):] if p.startswith(D) else p, 0)

    def glob_order(ps):
        return sorted(ps, key=rank)
    l = Lab(glob_order=glob_order)
    json_ = l.mod('json')
    for f, d in files.items():
        l.it.vfs[D + f] = d if isinstance(d, str) else \
            l.call(json_.dumps, d, indent=2)
    before = dict(l.it.vfs)
    l.start()
    ctx.labs.append(l)
    return l, before


def attrs(lab, o, d):
    out = {}
    for k in d:
        try:
            out[k] = plain(lab.get(o, k))
        except AttributeError:
            pass
    return out


def run(ctx):
    n = 0
    for what, files in SETS:
        efts, bases = expected(files)
        with ctx.rule(what):
            for order in orders(files):
                o_ = ctx.run
                for tr, o in ctx.explore(lambda: load(ctx, files, order),
                                         mode='split'):
                    if not ctx.ok(o.ok, o.where() if not o.ok else W,
                                  '%s: import %s' % (what, o.show()),
                                  detail='listing order %s'
                                  % sorted(order, key=order.get)):
                        continue
                    lab, before = o.value
                    n += 1
                    check(ctx, what, lab, before, efts, bases, order)
    ctx.expect_at_least('imports', n, 60)


def check(ctx, what, lab, before, efts, bases, order):
    det = 'listing order %s' % sorted(order, key=order.get)
    for cls, exp in (('EFT', efts), ('Basis', bases)):
        got = instances(lab, cls)
        for k in set(exp) - set(got):
            ctx.violation(W, '%s: %s %s is not registered' % (what, cls, k),
                          detail=det)
        for k in set(got) - set(exp):
            ctx.violation(W, '%s: unexpected %s %s' % (what, cls, k),
                          detail=det)
        ctx.note(len(exp) + 1)
        for k in set(exp) & set(got):
            a = attrs(lab, got[k], exp[k])
            ctx.ok(equal(a, exp[k]), W, '%s: %s %s differs from its file'
                   % (what, cls, k), detail=det + '\n%.300s\n%.300s'
                   % (a, exp[k]))
            r = ctx.run(lambda: lab.it.getitem(getattr(lab.wcxf, cls), k))
            ctx.ok(r.ok and r.value is got[k], W, '%s: %s %s cannot be '
                   'looked up' % (what, cls, k), detail=det)
    ctx.ok(dict(lab.it.vfs) == before, W, '%s: the import changes files'
           % what)
    ctx.ok(not lab.it.stdout._data(), W, '%s: the import prints' % what)
