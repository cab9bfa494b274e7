"""Dataflow of exact forms through the Warsaw <-> Warsaw up translators with
the CKM matrix as a matrix of independent abstract elements; every output is
compared with the action of the quark-doublet rotation (V^dagger resp. V) on
the full coefficient tensor derived from the field content of the operator.
The two directions are inverse to each other by unitarity of V.  The same comparison is made for
partial inputs (both halves of the families by every bit of a binary code)."""
from .smeftlab import *

LEVEL = 'proof'


def run(ctx):
    A = wc_atoms(WARSAW)
    for src, dst, inv in (('Warsaw', 'Warsaw up', True),
                          ('Warsaw up', 'Warsaw', False)):
        with ctx.rule('%s to %s' % (src, dst)):
            def fn(A):
                lab = setup(ctx)
                return lab, lab.translate('SMEFT', src, dst, A)
            for X, tr, o in explore_kinds(ctx, WARSAW, fn):
                if not o.ok:
                    ctx.violation(o.where(), '%s -> %s %s'
                                  % (src, dst, o.show()))
                    continue
                lab, got = o.value
                V = rows(ckm(lab))
                U = {'q': smeft.dagger(V) if inv else V}
                exp = smeft.rotate_all(X, U, WARSAW)
                ctx.compare(exp, got, '%s -> %s' % (src, dst), lab, tr)
            for what, present in halves(WARSAW):
                B, Z = partial_input(A, present)
                for tr, o in ctx.explore(lambda: fn(B), generic=has_wc,
                                         policy=generic_scale):
                    n = '%s -> %s (%s)' % (src, dst, what)
                    if not o.ok:
                        ctx.violation(o.where(), n + ' ' + o.show())
                        continue
                    lab, got = o.value
                    V = rows(ckm(lab))
                    U = {'q': smeft.dagger(V) if inv else V}
                    ctx.compare(smeft.rotate_all(Z, U, WARSAW), got, n, lab,
                                tr)
    with ctx.rule('round trip for an exactly unitary CKM matrix'):
        for b, c in (('Warsaw', 'Warsaw up'), ('Warsaw up', 'Warsaw')):
            def fn():
                lab = setup(ctx, ckm=rat_ckm())
                x = lab.translate('SMEFT', b, c, A)
                return lab, lab.translate('SMEFT', c, b, x)
            for tr, o in explore(ctx, fn):
                if not o.ok:
                    ctx.violation(o.where(), 'round trip ' + o.show())
                    continue
                lab, got = o.value
                ctx.compare(A, got, '%s -> %s -> %s' % (b, c, b), lab, tr)
    ctx.expect_at_least('output coefficients', ctx.obligations, 3000)
