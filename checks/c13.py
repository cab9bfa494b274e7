"""Dataflow through two translation chains with the same abstract input: the
linear forms reached by the two routes must be identical (commuting diagrams).
JMS-Bern-flavio against JMS-flavio, flavio-Bern-flavio against the identity,
FlavorKit-JMS-flavio against FlavorKit-flavio, and the combined SMEFT matchers
against the composition of the elementary translators and matchers.  The maps
between Bern and flavio are also compared with the operator definitions."""
from .smeftlab import *
from .wetlab import *
from spec import flavorkit
from .c20 import pythagorean, keys as wetkeys

LEVEL = 'proof'


def chain(ctx, fn, name, exp=None):
    """fn() -> lab, expected, got"""
    n = 0
    for tr, o in explore(ctx, fn):
        if not o.ok:
            ctx.violation(o.where(), '%s %s' % (name, o.show()))
            continue
        lab, e, g = o.value
        n += len(e)
        ctx.compare(e, g, name, lab, tr)
    return n


# decays without a counterpart in the Bern basis as implemented
def has_bern(k):
    import re
    return not re.match(r'^C[LR]_sd', k)


def jms_bern_flavio(ctx, eft, pick):
    A = wc_atoms(jms_keys(eft, pick))

    def fn():
        lab = setup(ctx, pick)
        x = lab.translate(eft, 'JMS', 'Bern', A)
        y = lab.translate(eft, 'Bern', 'flavio', x)
        z = lab.translate(eft, 'JMS', 'flavio', A)
        return lab, {k: v for k, v in z.items() if has_bern(k)}, \
            {k: v for k, v in y.items() if has_bern(k)}
    return chain(ctx, fn, '%s JMS -> Bern -> flavio' % eft)


def flavio_bern(ctx, eft):
    F = wc_atoms({k: v for k, v in keys_of(eft, 'flavio').items()
                  if has_bern(k)})

    def fn():
        lab = setup(ctx)
        x = lab.translate(eft, 'flavio', 'Bern', F)
        return lab, F, lab.translate(eft, 'Bern', 'flavio', x)
    n = chain(ctx, fn, '%s flavio -> Bern -> flavio' % eft)
    route(ctx, eft, 'Bern', 'flavio', wet.bern_to_flavio)
    route(ctx, eft, 'flavio', 'Bern', wet.flavio_to_bern,
          keys={k: False for k in F})
    return n


def flavorkit_flavio(ctx):
    A = wc_atoms(flavorkit.keys())

    def fn():
        lab = setup(ctx, efts=('WET',))
        x = lab.translate('WET', 'FlavorKit', 'JMS', A)
        return lab, lab.translate('WET', 'JMS', 'flavio', x), \
            lab.translate('WET', 'FlavorKit', 'flavio', A)
    return chain(ctx, fn, 'FlavorKit -> flavio')


def smeft_chain(ctx, dst):
    S = wc_atoms(WARSAW)
    p = pythagorean(3, 4, 5)

    def fn():
        def hook(it, name, m):
            if name == 'wcxf.parameters':
                m.__dict__['p'].update(p)
        lab = setup_smeft(ctx, ckm=rat_ckm(), on_import=hook)
        symb.MODE.jet = True
        try:
            x = lab.translate('SMEFT', 'Warsaw', 'Warsaw up', S)
            y = lab.match('SMEFT', 'Warsaw up', 'WET', 'JMS', x)
            if dst != 'JMS':
                y = lab.translate('WET', 'JMS', dst, y)
            z = lab.match('SMEFT', 'Warsaw', 'WET', dst, S)
        finally:
            symb.MODE.jet = False
        return lab, y, z
    return chain(ctx, fn, 'SMEFT Warsaw -> WET %s' % dst)


def run(ctx):
    jobs = []
    for dst in ('Bern', 'flavio', 'EOS', 'JMS'):
        jobs.append(('SMEFT Warsaw - WET %s' % dst,
                     lambda dst=dst: smeft_chain(ctx, dst)))
    for eft in WETS:
        for pick in ((min, max) if ctx.thorough else (min,)):
            jobs.append(('%s JMS - Bern - flavio (%s)' % (eft, pick.__name__),
                         lambda e=eft, p=pick: jms_bern_flavio(ctx, e, p)))
        jobs.append(('%s flavio - Bern - flavio' % eft,
                     lambda e=eft: flavio_bern(ctx, e)))
    jobs.append(('FlavorKit - JMS - flavio',
                 lambda: flavorkit_flavio(ctx)))
    n = sum(x or 0 for x in ctx.par(jobs))
    ctx.expect_at_least('coefficients compared', n, 4000)


def setup_smeft(ctx, **kw):
    from . import smeftlab
    lab = smeftlab.setup(ctx, **kw)
    lab.eft('WET')
    lab.basis('WET', 'JMS', wetkeys())
    for b in ('Bern', 'flavio', 'EOS'):
        lab.basis('WET', b, keys_of('WET', b))
    return lab
