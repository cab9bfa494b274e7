"""Dataflow of exact forms through the SMEFT basis change with a unit CKM
matrix onto a model basis listing every flavour component: the result must be
the complete tensor with hermiticity and exchange symmetries derived from the
operator (not from the code), for real and for complex inputs."""
from .smeftlab import *

LEVEL = 'proof'


def run(ctx):
    for src, dst in (('Warsaw', 'Warsaw up'), ('Warsaw up', 'Warsaw')):
        with ctx.rule('%s to %s, all components' % (src, dst)):
            def fn(A):
                lab = setup(ctx, allkeys=True, ckm=identity_ckm)
                return lab, lab.translate('SMEFT', src, dst, A)
            for A, tr, o in explore_kinds(ctx, WARSAW, fn):
                if not o.ok:
                    ctx.violation(o.where(), '%s -> %s %s'
                                  % (src, dst, o.show()))
                    continue
                lab, got = o.value
                exp = smeft.rotate_all(A, {}, ALLKEYS)
                ctx.compare(exp, got, '%s -> %s (all components)'
                            % (src, dst), lab, tr)
    with ctx.rule('self-conjugate components stay real'):
        # an imaginary part given for a self-conjugate component is dropped
        B = {k: Sym.atom('c:' + k, real=False, wc=True)
             for k, r in WARSAW.items() if r and '_' in k}

        def fn():
            lab = setup(ctx, ckm=identity_ckm)
            return lab, lab.translate('SMEFT', 'Warsaw', 'Warsaw up', B)
        for tr, o in explore(ctx, fn):
            if not o.ok:
                ctx.violation(o.where(), 'Warsaw -> Warsaw up ' + o.show())
                continue
            lab, got = o.value
            exp = {k: v.real for k, v in B.items()}
            ctx.compare(exp, got, 'Warsaw -> Warsaw up (complex input for '
                        'real coefficients)', lab, tr)
    ctx.expect_at_least('tensor components', ctx.obligations, 5000)
