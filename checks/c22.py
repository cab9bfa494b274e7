"""Dataflow through the matchers between the five-, four-, three- and
two-flavour theories: for model target bases that are a subset of, overlap
with, or contain the source basis (coefficients spread over several sectors,
listed in any order, some without an entry), every coefficient defined by the
target basis must be handed on with exactly its value, every other one
dropped."""
from .wetlab import *
from .baselab import nonzero, settled, I_
from fractions import Fraction as Fr
import itertools

LEVEL = 'proof'
ROUTES = [('WET', 'flavio', 'WET-4', 'flavio'),
          ('WET-4', 'flavio', 'WET-3', 'flavio'),
          ('WET', 'Bern', 'WET-4', 'Bern'),
          ('WET-4', 'Bern', 'WET-3', 'Bern'),
          ('WET', 'JMS', 'WET-4', 'JMS'),
          ('WET-4', 'JMS', 'WET-3', 'JMS'),
          ('WET-3', 'JMS', 'WET-2', 'JMS')]

# one value of each kind
VALUES = [lambda: Sym.atom('x', real=False, wc=True),
          lambda: I_ * Sym.atom('y', wc=True),
          lambda: Sym.atom('z', wc=True), lambda: Sym.const(Fr(-5, 2)),
          lambda: I_ * Sym.const(3), lambda: Sym.const(Fr(1, 10 ** 200)),
          lambda: Sym.const(2) + I_ * Sym.atom('t', wc=True),
          lambda: Sym.const(0)]


def names(basis):
    """abstract coefficient names of all shapes used in the bases"""
    shapes = {'flavio': ['C9_bsmumu', 'CVLL_bsbs', 'C9_sdee', 'CL_bsnuenue',
                         'CVL_bctaunutau', 'C7_bs', 'CVLL_ucuc', 'C9_cuee'],
              'Bern': ['1sbsb', '7pgammabs', '1mbcmu', '1bsmumu', '1sdsd',
                       '3psduu', 'nu1sdee', '9uccu'],
              'JMS': ['G', 'VddLL_1213', 'VddLL_1212', 'egamma_12',
                      'VeuLL_1112', 'VeuLL_1111', 'SedRL_1123', 'uG_22']}
    return shapes[basis]


def run(ctx):
    N = 0
    for e1, b1, e2, b2 in ROUTES:
        with ctx.rule('%s %s to %s %s' % (e1, b1, e2, b2)):
            ks = names(b1)
            full = keys_of(e1, b1) if e1 != 'WET-2' else {}
            subs = [ks, ks[:1], ks[::2], ks[1::2], ks[-3:]]
            if ctx.thorough:
                subs += [list(c) for r in (2, 3) for c in
                         itertools.combinations(ks, r)]
            else:
                subs += [list(c) for c in itertools.combinations(ks, 2)][::5]
            cases = [(ks, s, x) for s in subs for x in (0, 1)]
            # the model bases themselves
            if e2 != 'WET-2':
                cases.append((list(full), list(keys_of(e2, b2)), 0))
            for src, dst, style in cases:
                A = {k: Sym.atom('%s:%d' % (k, i % 2), real=bool(i % 2), wc=True)
                     for i, k in enumerate(src)}
                tgt = list(dst) + ['extra_1', 'extra_2']
                if style:
                    tgt = tgt[::-1]

                def fn():
                    lab = ctx.lab()
                    lab.eft(e1, ('s1', 's2'))
                    lab.eft(e2, ('s1', 's2', 's3'))
                    h = len(src) // 2
                    lab.call(lab.wcxf.Basis, e1, b1,
                             {'s1': {k: {} for k in src[:h]},
                              's2': {k: {'real': True} for k in src[h:]}})
                    if e1 != e2:
                        t = len(tgt) // 3
                        lab.call(lab.wcxf.Basis, e2, b2,
                                 {'s1': {k: None for k in tgt[:t]},
                                  's2': {k: {'real': True}
                                         for k in tgt[t:2 * t]},
                                  's3': {k: {} for k in tgt[2 * t:]}})
                    w = lab.wc(e1, b1, SCALE, A)
                    o = lab.m(w, 'match', e2, b2)
                    return lab, o, lab.dict_of(o)
                for tr, o in explore(ctx, fn):
                    if not o.ok:
                        ctx.violation(o.where(), '%s %s -> %s: matching %s'
                                      % (b1, e1, e2, o.show()))
                        continue
                    lab, w, got = o.value
                    exp = {k: v for k, v in A.items() if k in tgt}
                    ctx.compare(exp, got, '%s: %s -> %s' % (b1, e1, e2),
                                lab, tr)
                    ctx.ok(same(lab.get(w, 'scale'), SCALE), 'Matcher.match',
                           '%s: %s -> %s: scale changed' % (b1, e1, e2))
                    N += len(src)
            # degenerate values: partition on whether each part vanishes
            small = {k: v for k, v in zip(ks, VALUES)}
            for pick in (0, 1):
                A = {k: v() for k, v in small.items()}

                def fn2():
                    lab = ctx.lab()
                    lab.eft(e1)
                    lab.eft(e2)
                    lab.basis(e1, b1, ks)
                    lab.basis(e2, b2, ks[pick::2] + ['extra'])
                    return lab, lab.match(e1, b1, e2, b2, A)
                for tr, o in ctx.explore(fn2, mode='split', limit=600):
                    if not o.ok:
                        ctx.violation(o.where(), '%s %s -> %s: matching %s'
                                      % (b1, e1, e2, o.show()))
                        continue
                    lab, got = o.value
                    exp = {k: v for k, v in A.items()
                           if k in ks[pick::2] and nonzero(v, tr) is not
                           False}
                    ctx.compare(settled(exp, tr), settled(got, tr), '%s: '
                                '%s -> %s' % (b1, e1, e2), lab, tr)
                    N += len(A)
    ctx.expect_at_least('coefficients', N, 3000)
