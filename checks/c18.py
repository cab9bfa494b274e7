"""Dataflow of exact forms through the Warsaw -> Warsaw mass translator: the
up-type dipole and Yukawa-like coefficients are rotated by V on the doublet
index, the Weinberg operator becomes the diagonal matrix of its singular
values, every other coefficient is unchanged."""
from .smeftlab import *

LEVEL = 'proof'
ROT = ('uphi', 'uG', 'uW', 'uB')


def expected(A, V, svd_arg):
    exp = {}
    for k, v in A.items():
        f = k.split('_')[0]
        if f not in ROT and f != 'llphiphi':
            exp[k] = v
    for f in ROT:
        T = smeft.rotate(smeft.tensor(A, f), ('q*',), {'q': smeft.dagger(V)})
        for i, v in T.items():
            exp[smeft.label(f, i)] = v
    return exp


def run(ctx):
    seen = []

    def msvd(m):
        seen.append(m)
        return svals(m)
    with ctx.rule('Warsaw to Warsaw mass'):
        def fn(A):
            lab = setup(ctx, **{'ckmutil.msvd': msvd})
            return lab, lab.translate('SMEFT', 'Warsaw', 'Warsaw mass', A)
        for A, tr, o in explore_kinds(ctx, WARSAW, fn):
            if not o.ok:
                ctx.violation(o.where(), 'Warsaw -> Warsaw mass ' + o.show())
                continue
            lab, got = o.value
            exp = expected(A, rows(ckm(lab)), seen)
            ll = {k: v for k, v in got.items() if k.startswith('llphiphi')}
            rest = {k: v for k, v in got.items() if k not in ll}
            ctx.compare(exp, rest, 'Warsaw -> Warsaw mass', lab, tr)
            # Weinberg operator
            w = lab.writers('llphiphi_11')
            w = '; '.join(w) or 'Warsaw -> Warsaw mass'
            if ctx.ok(bool(seen), w, 'the Weinberg operator is not '
                      'diagonalised by a singular value decomposition'):
                m = seen[-1]
                for i in (1, 2, 3):
                    for j in (1, 2, 3):
                        ctx.ok(same(m[i - 1, j - 1],
                                    smeft.full(A, 'llphiphi', (i, j))), w,
                               'element %d%d of the diagonalised matrix is '
                               'not the Weinberg coefficient' % (i, j),
                               detail=str(m[i - 1, j - 1]))
                sv = svals(m)[1]
                e = {'llphiphi_%d%d' % (i, i): lift(sv[i - 1])
                     for i in (1, 2, 3)}
                ctx.compare(e, ll, 'Warsaw -> Warsaw mass', lab, tr)
    ctx.expect_at_least('output coefficients', ctx.obligations, 1600)
