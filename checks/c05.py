"""Typestate analysis of the four registries (EFTs, bases, translators,
matchers) against a reference model: all histories up to a bounded length over
registration, re-registration, failed construction, lookup, deletion and
clearing are propagated through the abstract package; after every history
each registry, every lookup and the lists of known bases and translators must
agree with the model.  Names are only compared for equality, so the distinct
names used stand for arbitrary ones."""
from .baselab import *
import itertools
import operator

LEVEL = 'proof'

# names that contain each other, differ in case, or are shared between kinds
FAMILIES = [('E', 'E-2', 'b', 'b up'), ('Xy', 'xy', 'bas', 'Bas'),
            ('b', 'c', 'c', 'b'), ('2-E', 'E', 'up b', 'b')]
OPS = []


def op(f):
    OPS.append(f)
    return f


class Model(dict):
    """class name -> {name: object}"""

    def __init__(self, lab):
        super().__init__()
        for c in ('EFT', 'Basis', 'Translator', 'Matcher'):
            self[c] = dict(instances(lab, c))


def eft(n):
    def f(lab, m):
        m['EFT'][n] = lab.eft(n)
    f.__doc__ = 'EFT %s' % n
    return f


def basis(e, n):
    def f(lab, m):
        m['Basis'][e, n] = lab.basis(e, n, ['a'])
    f.__doc__ = 'basis %s/%s' % (e, n)
    return f


def dec(kind, key):
    def f(lab, m):
        def fun(x, scale, parameters):
            return dict(x)
        c = 'Translator' if kind == 'translator' else 'Matcher'
        r = lab.call(lab.call(getattr(lab.wcxf, kind), *key), fun)
        if r is not fun:
            raise Wrong('the decorator does not return the function')
        m[c][key] = lab.it.getitem(getattr(lab.wcxf, c), key)
        if lab.get(m[c][key], 'function') is not fun:
            raise Wrong('the registered %s has another function' % kind)
    f.__doc__ = '%s %s' % (kind, '/'.join(key))
    return f


class Wrong(Exception):
    pass


def delete(c, key, sub=True):
    def f(lab, m):
        cls = getattr(lab.wcxf, c)
        try:
            if sub:
                lab.it.host(operator.delitem, (cls, key), {})
            else:
                lab.call(lab.get(cls, 'del_instance'), key)
        except (KeyError, AttributeError):
            if key in m[c]:
                raise Wrong('deletion of a registered name fails')
            return
        if key not in m[c]:
            raise Wrong('deletion of an unknown name succeeds')
        del m[c][key]
    f.__doc__ = 'delete %s %s' % (c, key)
    return f


def clear(c):
    def f(lab, m):
        lab.call(lab.get(getattr(lab.wcxf, c), 'clear_all'))
        m[c].clear()
    f.__doc__ = 'clear %s' % c
    return f


def badbasis(e, n):
    def f(lab, m):
        try:
            lab.basis(e, n, ['a'], parent='nowhere')
        except ValueError:
            return
        raise Wrong('basis with a missing parent is accepted')
    f.__doc__ = 'basis %s/%s with missing parent' % (e, n)
    return f


def ops(small, names):
    A, B, b1, b2 = names
    o = [eft(A), eft(B), basis(A, b1), basis(A, b2), basis(B, b1),
         dec('translator', (A, b1, b2)), dec('translator',
                                                 (B, b1, b2)),
         dec('matcher', (A, b1, B, b1)), delete('Basis', (A, b1)),
         delete('Translator', (A, b1, b2), False), delete('EFT', A),
         clear('Basis'), clear('EFT'), badbasis(A, b1)]
    if not small:
        o += [dec('translator', (A, b2, b1)),
              dec('translator', (A, b1, b1)),
              dec('matcher', (A, b1, B, b2)),
              delete('Matcher', (A, b1, B, b1)), clear('Translator'),
              clear('Matcher'), delete('Basis', (B, b1), False)]
    return o


W = 'registry of named objects'


def lookups(names):
    A, B, b1, b2 = names
    return {
        'EFT': [A, B, 'X', A + B],
        'Basis': [(A, b1), (A, b2), (B, b1), (B, b2), (b1, A)],
        'Translator': [(A, b1, b2), (A, b1, b1), (A, b2, b1), (B, b1, b2),
                       ('SMEFT', 'Warsaw', 'Warsaw up')],
        'Matcher': [(A, b1, B, b1), (A, b1, B, b2),
                    ('SMEFT', 'Warsaw', 'WET', 'JMS')]}


def agree(ctx, lab, m, hist, names):
    h = ', '.join(f.__doc__ for f in hist) or 'start'
    for c in m:
        I = instances(lab, c)
        ctx.ok(list(I) == list(I) and set(I) == set(m[c]) and
               all(I[k] is m[c][k] for k in I), W,
               'after %s: registered %ss are %s, expected %s'
               % (h, c, sorted(map(str, I)), sorted(map(str, m[c]))))
        cls = getattr(lab.wcxf, c)
        for n in lookups(names)[c]:
            for how in ('[]', 'get_instance'):
                try:
                    r = lab.it.getitem(cls, n) if how == '[]' else \
                        lab.call(lab.get(cls, 'get_instance'), n)
                except (KeyError, AttributeError) as e:
                    r = None
                ctx.ok(r is m[c].get(n), W, 'after %s: %s %s gives %s'
                       % (h, c, n, r))
    if not m['Basis']:
        return
    for e, o in m['EFT'].items():
        got = lab.get(o, 'known_bases')
        ctx.ok(sorted(got) == sorted(b for x, b in m['Basis'] if x == e), W,
               'after %s: known bases of %s are %s' % (h, e, got))
        got = lab.get(o, 'known_translators')
        ctx.ok(sorted(got) == sorted(t for t in m['Translator']
                                     if t[0] == e), W,
               'after %s: known translators of EFT %s are %s' % (h, e, got))
    for (e, b), o in m['Basis'].items():
        got = lab.get(o, 'known_translators')
        for d, i in (('from', 1), ('to', 2)):
            ctx.ok(sorted(got[d]) == sorted(
                t for t in m['Translator'] if t[0] == e and t[i] == b), W,
                'after %s: known translators %s %s/%s are %s'
                % (h, d, e, b, got[d]))


def histories(ctx, hs, names):
    n = 0
    for hist in hs:
        def fn():
            lab = ctx.lab()
            m = Model(lab)
            for f in hist:
                f(lab, m)
            return lab, m
        for tr, o in ctx.explore(fn, mode='split'):
            h = ', '.join(f.__doc__ for f in hist)
            if not o.ok:
                ctx.note()
                ctx.violation(o.where() if not isinstance(o.exc, Wrong)
                              else W, 'history %s: %s' % (h, o.show()))
                continue
            agree(ctx, o.value[0], o.value[1], hist, names)
            n += 1
    return n


def run(ctx):
    jobs = []
    for f, names in enumerate(FAMILIES):
        big, small = ops(False, names), ops(True, names)
        hs = [()] + [(a,) for a in big] + \
            list(itertools.product(big, repeat=2))
        jobs.append(('histories of length 0 to 2 over names %s' % (names,),
                     lambda hs=hs, n=names: histories(ctx, hs, n)))
        if f and not ctx.thorough:
            continue
        three = list(itertools.product(big if ctx.thorough else small,
                                       repeat=3))
        k = 7
        for i in range(k):
            jobs.append(('histories of length 3 over names %s' % (names,),
                         lambda h=three[i::k], n=names:
                         histories(ctx, h, n)))
    v = ctx.par(jobs)
    ctx.expect_at_least('histories', sum(x or 0 for x in v), 4000)
