"""Dataflow of first-order jets (exact linear forms, higher orders dropped)
through the SMEFT -> WET matching with a unit CKM matrix: every JMS coefficient
is compared with the tree-level matching condition built from the quantum
numbers of the fermions and the contact operators (spec/matching.py).  The
exchange of two right-handed W currents is compared exactly to second order.  The
weak mixing angle is fixed to exact Pythagorean values so that the square
roots are exact; v, the overall coupling and m_Z stay abstract.  The same
comparison is made for partial inputs (both halves of the families by every
bit of a binary code)."""
from .smeftlab import *
from spec import matching

LEVEL = 'proof'


def pythagorean(a, b, c, pre='par:'):
    """parameters with g1 : g2 : sqrt(g1^2+g2^2) = a : b : c"""
    v = Sym.atom(pre + 'v', positive=True)
    G = Sym.atom(pre + 'G', positive=True)
    g2, e = G * Fr(b, c), G * Fr(a * b, c * c)
    pi = Sym({((symb.PI, 1),): Fr(1)})
    return {'GF': 1 / (symb.sqrt(lift(2)) * v * v), 'm_W': g2 * v / 2,
            'm_Z': Sym.atom('m_Z' if pre == 'par:' else pre + 'm_Z',
                            positive=True),
            'alpha_e': e * e / (4 * pi)}


def keys():
    K = keys_of('WET', 'JMS')
    for i in ('11', '12', '13', '22', '23', '33'):
        K['nu_' + i] = False
    return K


def matched(ctx, A, K, p, ckmf=identity_ckm, src='Warsaw up', jet=True):
    def fn():
        def hook(it, name, m):
            if name == 'wcxf.parameters':
                m.__dict__['p'].update(p)
        lab = setup(ctx, ckm=ckmf, on_import=hook)
        lab.eft('WET')
        lab.basis('WET', 'JMS', K)
        symb.MODE.jet = jet
        try:
            return lab, lab.match('SMEFT', src, 'WET', 'JMS', A)
        finally:
            symb.MODE.jet = False
    return fn


def compare(ctx, p, K, A, o, tr, what='SMEFT -> WET', jet=True):
    if not o.ok:
        ctx.violation(o.where(), '%s %s' % (what, o.show()))
        return
    lab, got = o.value
    pi = Sym({((symb.PI, 1),): Fr(1)})
    symb.MODE.jet = jet
    exp = matching.match(A, dict(p, pi=pi), K)
    symb.MODE.jet = False
    ctx.compare(exp, got, what, lab, tr)


def full(ctx, p, K):
    for A, tr, o in explore_kinds(ctx, WARSAW, lambda A:
                                  matched(ctx, A, K, p)()):
        compare(ctx, p, K, A, o, tr)


def righthanded(ctx, p, K):
    # exact, no orders dropped: the only effect of phiud that starts
    # at second order is the exchange of two right-handed W currents
    RH = {k: v for k, v in WARSAW.items() if k.startswith('phiud_')}
    for A, tr, o in explore_kinds(ctx, RH, lambda A: matched(
            ctx, A, K, p, jet=False)()):
        compare(ctx, p, K, A, o, tr, jet=False)


def part(ctx, p, K, what, present):
    B, Z = partial_input(wc_atoms(WARSAW), present)
    for tr, o in ctx.explore(matched(ctx, B, K, p), generic=has_wc,
                             policy=generic_scale):
        compare(ctx, p, K, Z, o, tr, 'SMEFT -> WET (%s)' % what)


def run(ctx):
    K = keys()
    pts = [(3, 4, 5)] + ([(5, 12, 13), (8, 15, 17)] if ctx.thorough else [])
    jobs = []
    for pt in pts:
        p = pythagorean(*pt)
        jobs.append(('matching conditions, g1:g2 = %d:%d' % pt[:2],
                     lambda p=p: full(ctx, p, K)))
        jobs.append(('right-handed charged currents, g1:g2 = %d:%d' % pt[:2],
                     lambda p=p: righthanded(ctx, p, K)))
    for what, present in halves(WARSAW):
        jobs.append(('matching conditions, partial input (%s)' % what,
                     lambda w=what, pr=present: part(
                         ctx, pythagorean(3, 4, 5), K, w, pr)))
    ctx.par(jobs)
    ctx.expect_at_least('JMS coefficients', ctx.obligations, 1400)
