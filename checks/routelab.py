"""Inventory of the documented routes with abstract inputs; shared by the
analyses that quantify over all routes."""
from .smeftlab import *
from .wetlab import *
from spec import flavorkit
from .c20 import pythagorean, keys as wetkeys
from .c22 import ROUTES as RESTRICT
from .c18 import expected as mass_expected
from spec import qcd, matching

NAMES = ['m_W', 'm_Z', 'GF', 'alpha_e', 'alpha_s', 'Vus', 'Vub', 'Vcb',
         'gamma', 'm_b', 'm_s', 'm_e', 'm_mu', 'm_tau']

TRANSLATORS = [('SMEFT', 'Warsaw', 'Warsaw mass'),
               ('SMEFT', 'Warsaw', 'Warsaw up'),
               ('SMEFT', 'Warsaw up', 'Warsaw')] + \
    [(e, a, b) for e in WETS for a, b in (('JMS', 'flavio'), ('JMS', 'Bern'),
                                          ('Bern', 'flavio'),
                                          ('flavio', 'Bern'))] + \
    [('WET', 'JMS', 'EOS'), ('WET', 'JMS', 'formflavor'),
     ('WET', 'FlavorKit', 'JMS'), ('WET', 'JMS', 'FlavorKit'),
     ('WET', 'FlavorKit', 'flavio')]
SMEFTMATCH = [('SMEFT', 'Warsaw up', 'WET', 'JMS')] + \
    [('SMEFT', 'Warsaw', 'WET', b) for b in ('JMS', 'flavio', 'EOS', 'Bern')]
MATCHERS = SMEFTMATCH + RESTRICT

# the derived couplings combine these parameters under square roots
MUP = ('GF', 'm_W', 'alpha_e')


def name(r):
    return '%s %s -> %s' % r if len(r) == 3 else '%s %s -> %s %s' % r


def keys_for(eft, basis):
    if eft == 'SMEFT':
        return MASS if basis == 'Warsaw mass' else WARSAW
    if basis == 'FlavorKit':
        return flavorkit.keys()
    if eft == 'WET-2':
        return {k: v for k, v in jms_keys('WET-3').items()
                if '2' not in k and '3' not in k}
    if basis == 'JMS' and eft == 'WET':
        return wetkeys()
    return keys_of(eft, basis)


def thin(keys, n, off=0):
    """every n-th coefficient of each family, plus those that enter the
    couplings"""
    out, cnt = {}, {}
    for k, v in keys.items():
        f = k.split('_')[0]
        cnt[f] = cnt.get(f, -1) + 1
        if (cnt[f] + off) % n == 0 or k in ('phiWB', 'll_1221', 'phil3_11',
                                            'phil3_22'):
            out[k] = v
    return out


def is_smeft(r):
    return r[0] == 'SMEFT'


def source_atoms(r, n=1, off=0, prefix=''):
    k = keys_for(r[0], r[1])
    return wc_atoms(thin(k, n, off) if n > 1 else k, prefix)


def build(ctx, routes=None, allkeys=False, **kw):
    """lab with every model basis the routes need"""
    kw.setdefault('ckmutil.msvd', svals)
    lab = ctx.lab(**kw)
    if routes is None:
        routes = TRANSLATORS + MATCHERS
    done = set()
    wets = [(e, a, b) for e in WETS for a, b in (('JMS', 'flavio'),
                                                 ('JMS', 'Bern'))]
    for r in list(routes) + wets:
        ends = [(r[0], r[1]), (r[0], r[2])] if len(r) == 3 else \
            [(r[0], r[1]), (r[2], r[3])]
        if r[0] == 'SMEFT':
            ends.append(('SMEFT', 'Warsaw up'))
        for e in ends:
            if e in done:
                continue
            if not any(d[0] == e[0] for d in done):
                lab.eft(e[0])
            done.add(e)
            lab.basis(e[0], e[1], keys_for(*e))
    return lab


def go(lab, r, atoms, scale=None, parameters=None, jet=None):
    """run one route on abstract coefficients: {key: form}"""
    w = lab.wc(r[0], r[1], SCALE if scale is None else scale, atoms)
    return apply(lab, r, w, parameters, jet)


def apply(lab, r, w, parameters=None, jet=None):
    j = len(r) == 4 and is_smeft(r) if jet is None else jet
    symb.MODE.jet = j
    try:
        kw = {} if parameters is None else {'parameters': parameters}
        o = lab.m(w, 'translate' if len(r) == 3 else 'match', *r[2:], **kw)
        return lab.dict_of(o)
    finally:
        symb.MODE.jet = False


def ref_running(p, scale=SCALE):
    """running parameters at a generic scale (spec/qcd.py)"""
    return dict(p, m_b=qcd.m_b(p['m_b'], scale, 5, p['alpha_s']),
                m_s=qcd.m_s(p['m_s'], scale, 5, p['alpha_s']),
                alpha_s=qcd.alpha_s(scale, 5, p['alpha_s']))


def reference(r, A, p, V):
    """{key: form} of the route according to the operator definitions at a
    generic scale, for the parameters p and the matrix V"""
    if len(r) == 4 and not is_smeft(r):
        K = keys_for(*r[2:])
        return {k: v for k, v in A.items() if k in K}
    if len(r) == 4:
        symb.MODE.jet = True
        try:
            B = A
            if r[1] == 'Warsaw':
                B = smeft.rotate_all(A, {'q': smeft.dagger(V)}, WARSAW)
            pi = Sym({((symb.PI, 1),): Fr(1)})
            x = matching.match_rotated(B, dict(p, pi=pi), wetkeys(), V)
            if r[3] == 'JMS':
                return x
            return reference(('WET', 'JMS', r[3]), x, p, V)
        finally:
            symb.MODE.jet = False
    if is_smeft(r):
        if r[2] == 'Warsaw mass':
            return mass_expected(A, V, None)
        U = {'q': smeft.dagger(V) if r[2] == 'Warsaw up' else V}
        return smeft.rotate_all(A, U, WARSAW)
    Va = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            Va[i, j] = V[i][j]
    P = wet.Par(ref_running(p), Va)
    K = jms_keys('WET')
    f = {('JMS', 'Bern'): wet.jms_to_bern, ('JMS', 'flavio'):
         wet.jms_to_flavio, ('JMS', 'EOS'): wet.jms_to_eos,
         ('JMS', 'formflavor'): wet.jms_to_formflavor,
         ('Bern', 'flavio'): wet.bern_to_flavio,
         ('flavio', 'Bern'): wet.flavio_to_bern,
         ('FlavorKit', 'JMS'): lambda A, P: flavorkit.to_jms(A, K, P),
         ('FlavorKit', 'flavio'): lambda A, P: wet.jms_to_flavio(
             flavorkit.to_jms(A, K, P), P),
         ('JMS', 'FlavorKit'): lambda A, P: flavorkit_from(A, K, P)}
    return f[r[1:]](A, P)


def flavorkit_from(J, K, P):
    """inverse of the FlavorKit -> JMS relabelling"""
    exp = {}
    X = Sym.atom('X', real=False)
    for k in flavorkit.keys():
        (j, v), = flavorkit.to_jms({k: X}, K, P).items()
        if j not in J:
            continue
        if k[:3] == 'K2R':
            exp[k] = J[j] / flavorkit.to_jms({k: Sym.const(1)}, K, P)[j]
        else:
            exp[k] = J[j] if same(v, X) else J[j].conjugate()
    return exp


def single_changes(r, base):
    """(name, parameters): consecutive parameter sets differ in exactly one
    entry; for the matching the weak mixing angle stays Pythagorean"""
    p = dict(base)
    # e/g2 = e v/(2 m_W) runs through ratios a/c of Pythagorean triples
    rat = [Fr(3, 5), Fr(5, 13), Fr(8, 17), Fr(7, 25)]
    for k in NAMES:
        new = Sym.atom('n:' + k, positive=k != 'gamma')
        if r in SMEFTMATCH and k in ('GF', 'm_W', 'alpha_e'):
            f = rat[1] / rat.pop(0)
            new = p[k] * (f * f if k == 'alpha_e' else 1 / f if k == 'm_W'
                          else 1 / f ** 2)
        p[k] = new
        yield k, dict(p)
