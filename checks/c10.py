"""Dataflow through every registered translation and matching route with two
independent abstract parameter sets: the forms obtained by passing user values
(all, two complementary halves, single falsy value, additional entries, empty,
none) must be identical to those obtained when the same values are the
package's defaults; in particular no default may leak in for a supplied name
and no supplied value may be ignored.  With all values given the forms are also
compared with the operator definitions at these values, so that a constant in
the place of a parameter is seen."""
from .routelab import *
from .c13 import has_bern

LEVEL = 'proof'


def variants(r, thorough):
    U = {k: Sym.atom('u:' + k, positive=k != 'gamma') for k in NAMES}
    ew = []
    if r in SMEFTMATCH:
        # keep the weak mixing angle exact: these move together
        U.update(pythagorean(5, 12, 13, 'u:'))
        ew = ['m_W', 'GF', 'alpha_e']
    names = [k for k in NAMES if k not in ew]
    yield 'all parameters given', U
    yield 'first half given', {k: U[k] for k in names[::2] + ew}
    yield 'second half given', {k: U[k] for k in names[1::2]}
    yield 'gamma = 0 given', {'gamma': 0}
    yield 'empty dictionary', {}
    yield 'with an unrelated entry', {'unrelated': 1.0, 'm_Z': U['m_Z'],
                                      'Vus': U['Vus']}
    if ew and not thorough:
        yield 'Vub, m_s, m_mu = 0 given', {'Vub': 0, 'm_s': 0, 'm_mu': 0}
        return
    for k in names:
        yield 'only %s given' % k, {k: U[k]}
    for k in names:
        if k != 'gamma':
            yield '%s = 0 given' % k, {k: 0}
    if not ew:
        return
    base = pythagorean(3, 4, 5)
    f = Fr(5, 13) / Fr(3, 5)
    for k, c in (('alpha_e', f * f), ('m_W', 1 / f), ('GF', 1 / f ** 2)):
        yield 'only %s given' % k, {k: base[k] * c}


def one(ctx, r):
    sm = r in SMEFTMATCH
    big = source_atoms(r, (8 if sm else 4) if is_smeft(r) else 1)
    small = big if ctx.thorough and not sm else \
        source_atoms(r, (60 if sm else 15) if is_smeft(r) else 10)
    base = pythagorean(3, 4, 5) if sm else {}
    n = 0
    for what, U in variants(r, ctx.thorough):
        A = small if what.startswith('only ') or '= 0' in what else big

        def fn():
            kw = dict(ckm=rat_ckm()) if is_smeft(r) else {}

            def hook0(it, name, m):
                if name == 'wcxf.parameters':
                    m.__dict__['p'].update(base)

            def hook(it, name, m):
                if name == 'wcxf.parameters':
                    m.__dict__['p'].update(base)
                    m.__dict__['p'].update({k: v for k, v in U.items()
                                            if k in NAMES})
            lab = build(ctx, [r], on_import=hook0, **kw)
            got = ctx.run(lambda: go(lab, r, A, parameters=dict(U)))
            ref = build(ctx, [r], on_import=hook, **kw)
            return lab, ctx.run(lambda: go(ref, r, A)), got
        for tr, o in ctx.explore(fn, generic=has_wc, policy=scale_policy
                                 if what.startswith('all') and not sm
                                 else generic_scale):
            if not o.ok:
                ctx.violation(o.where(), '%s (%s) %s' % (name(r), what,
                                                         o.show()))
                continue
            lab, exp, got = o.value
            if not (exp.ok and got.ok):
                # a value for which the result is undefined either way
                ctx.ok(not exp.ok and not got.ok and '= 0' in what and
                       type(got.exc) == type(exp.exc),
                       (got if not got.ok else exp).where(),
                       '%s (%s) %s; with that value as default: %s'
                       % (name(r), what, got.show()[:100],
                          exp.show()[:100]))
                continue
            ctx.compare(exp.value, got.value, '%s, %s' % (name(r), what),
                        lab, tr)
            n += len(exp.value)
    return n


def against_spec(ctx, r):
    """result for user parameters against the operator definitions at these
    parameters (a constant in the place of a parameter shows here)"""
    sm = r in SMEFTMATCH
    U = {k: Sym.atom('u:' + k, positive=k != 'gamma') for k in NAMES}
    if sm:
        U.update(pythagorean(3, 4, 5, 'u:'))
    keys = thin(keys_for(r[0], r[1]), 30 if sm else 12) if is_smeft(r) else \
        keys_for(r[0], r[1])
    if r[1] == 'flavio':
        keys = {k: v for k, v in keys.items() if has_bern(k)}
    A = wc_atoms(keys)
    base = pythagorean(5, 12, 13) if sm else {}
    ck = rat_ckm() if sm else None

    def hook(it, name, m):
        if name == 'wcxf.parameters':
            m.__dict__['p'].update(base)

    def fn():
        lab = build(ctx, [r], on_import=hook, **(dict(ckm=ck) if sm else {}))
        return lab, go(lab, r, A, parameters=dict(U))
    n = 0
    for tr, o in ctx.explore(fn, generic=has_wc, policy=generic_scale):
        if not o.ok:
            ctx.violation(o.where(), '%s (all parameters given) %s'
                          % (name(r), o.show()))
            continue
        lab, got = o.value
        V = rows(ck(*(U[k] for k in ('Vus', 'Vub', 'Vcb', 'gamma'))) if sm
                 else ckm(lab, U))
        exp = reference(r, A, U, V)
        if r[2] == 'Warsaw mass':
            got = {k: v for k, v in got.items()
                   if not k.startswith('llphiphi')}
        ctx.compare(exp, got, '%s, all parameters given, against the operator'
                    ' definitions' % name(r), lab, tr)
        n += len(exp)
    return n


def run(ctx):
    R = SMEFTMATCH + TRANSLATORS + RESTRICT
    v = ctx.par([('parameters of %s' % name(r),
                  lambda r=r: (one(ctx, r), against_spec(ctx, r)))
                 for r in R])
    ctx.expect_at_least('routes', sum(1 for x in v if x and all(x)), len(R))
