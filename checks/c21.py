"""Dataflow of first-order jets through the SMEFT -> WET matching with a
non-trivial quark mixing matrix (exact unitary matrices over Q(i) without
vanishing elements): every JMS coefficient must be the tree-level matching
condition of spec/matching.py with every index of a left-handed down-type
quark - and no other - rotated by V (conjugated for the barred field).  Run
for the up-aligned basis and for the down-aligned basis, whose translation
precedes the matching."""
from .c20 import *

LEVEL = 'proof'


def run(ctx):
    A = wc_atoms(WARSAW)
    K = keys()
    pi = Sym({((symb.PI, 1),): Fr(1)})
    p = pythagorean(3, 4, 5)
    for n in (range(3) if ctx.thorough else range(1)):
        def ckmf(*a, n=n):
            return NDArr(unitary(n).copy(), 'c')
        V = rows(unitary(n))
        for src in ('Warsaw up', 'Warsaw'):
            with ctx.rule('matching from %s with mixing matrix %d'
                          % (src, n)):
                symb.MODE.jet = True
                B = A
                if src == 'Warsaw':
                    B = smeft.rotate_all(A, {'q': smeft.dagger(V)}, WARSAW)
                exp = matching.match_rotated(B, dict(p, pi=pi), K, V)
                symb.MODE.jet = False
                for tr, o in explore(ctx, matched(ctx, A, K, p, ckmf, src)):
                    if not o.ok:
                        ctx.violation(o.where(), 'matching ' + o.show())
                        continue
                    lab, got = o.value
                    ctx.compare(exp, got, 'SMEFT %s -> WET' % src, lab, tr)
    ctx.expect_at_least('JMS coefficients', ctx.obligations, 2800)
