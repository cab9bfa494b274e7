"""Dataflow of exact linear forms through the FlavorKit/JMS translators and
their lookup tables, compared coefficient by coefficient with the index rule
of the two operator bases (spec/flavorkit.py) and composed to check that the
two directions are inverse to each other."""
from .wetlab import *
from spec import flavorkit

LEVEL = 'proof'


def run(ctx):
    FK = flavorkit.keys()
    K = jms_keys('WET')
    with ctx.rule('FlavorKit to JMS'):
        def fn(A):
            lab = setup(ctx, efts=('WET',))
            return lab, par(lab), lab.translate('WET', 'FlavorKit', 'JMS', A)
        for A, tr, o in explore_kinds(ctx, FK, fn):
            if not o.ok:
                ctx.violation(o.where(), 'FlavorKit -> JMS ' + o.show())
                continue
            lab, P, got = o.value
            exp = flavorkit.to_jms(A, K, P)
            ctx.ok(len(exp) == len(FK), 'spec', 'index rule is one to one')
            ctx.compare(exp, got, 'FlavorKit -> JMS', lab, tr)
    with ctx.rule('JMS to FlavorKit'):
        def fn(J):
            lab = setup(ctx, efts=('WET',))
            return lab, par(lab), lab.translate('WET', 'JMS', 'FlavorKit', J)
        for J, tr, o in explore_kinds(ctx, K, fn):
            if not o.ok:
                ctx.violation(o.where(), 'JMS -> FlavorKit ' + o.show())
                continue
            lab, P, got = o.value
            exp = {}
            one = Sym.const(1)
            for k in FK:
                e = flavorkit.to_jms({k: Sym.atom('X', real=False)}, K, P)
                (j, v), = e.items()
                if k[:3] == 'K2R':
                    f = flavorkit.to_jms({k: one}, K, P)[j]
                    exp[k] = J[j] / f
                else:
                    exp[k] = J[j] if same(v, Sym.atom('X', real=False)) \
                        else J[j].conjugate()
            ctx.compare(exp, got, 'JMS -> FlavorKit', lab, tr)
    with ctx.rule('round trip FlavorKit - JMS - FlavorKit'):
        def fn(A):
            lab = setup(ctx, efts=('WET',))
            x = lab.translate('WET', 'FlavorKit', 'JMS', A)
            return lab, lab.translate('WET', 'JMS', 'FlavorKit', x)
        for A, tr, o in explore_kinds(ctx, FK, fn):
            if not o.ok:
                ctx.violation(o.where(), 'round trip ' + o.show())
                continue
            lab, got = o.value
            ctx.compare(A, got, 'FlavorKit -> JMS -> FlavorKit', lab, tr)
    with ctx.rule('unknown FlavorKit coefficient is an error'):
        for k in ('XYZ_1234', 'DSRR_9999', 'Q3R_12'):
            def fn():
                lab = setup(ctx, efts=('WET',))
                return lab.translate('WET', 'FlavorKit', 'JMS',
                                     {k: Sym.atom('x', real=False, wc=True)})
            for tr, o in explore(ctx, fn):
                ctx.ok(not o.ok and isinstance(o.exc, (ValueError, KeyError)),
                       'translator FlavorKit -> JMS',
                       'unknown coefficient %s is accepted silently: %s'
                       % (k, o.show()))
    ctx.expect_at_least('FlavorKit coefficients', len(FK), 900)
