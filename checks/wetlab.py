"""Shared set-up of the WET route analyses."""
import time
from vf import symb, models
from vf.symb import Sym, same, lift
from vf.lab import SCALE, wc_atoms
from spec import jms, wet
from fractions import Fraction as Fr

I_ = Sym({((symb.I, 1),): Fr(1)}, 'c')

WETS = {'WET': 5, 'WET-4': 4, 'WET-3': 3}


_wc = {}


def _atom_wc(a):
    r = _wc.get(a)
    if r is None:
        i = symb.A.info[a]
        r = bool(i['wc'])
        if not r and i['poly'] is not None:
            r = has_wc(i['poly'])
        if not r:
            r = _key_wc(i['key'])
        _wc[a] = r
    return r


def _key_wc(k):
    if not isinstance(k, (tuple, frozenset)):
        return False
    k = tuple(k)
    if len(k) == 2 and k[0] == 'S':
        return any(_atom_wc(a) for m, _ in k[1] for a, _ in m)
    return any(_key_wc(x) for x in k)


def has_wc(d):
    """a condition on a Wilson coefficient (decided generically) as opposed
    to one on the scale or on a parameter (partitioned)"""
    return any(_atom_wc(a) for m in d.t for a, _ in m)


def scale_policy(cond, eng):
    """the scale can coincide with at most one of the thresholds (M_Z, m_b,
    2 GeV, ...), and distinct parameters are different from each other"""
    if cond[0] not in ('nz', 'close') or has_wc(cond[1]):
        return None
    far = cond[0] == 'nz'
    mu = next(iter(next(iter(SCALE.t))))[0]
    if not any(a == mu for m in cond[1].t for a, _ in m):
        return far
    for key, v in eng.facts.items():
        if (key[0] == 'nz' and v is False) or (key[0] == 'close' and v):
            return far
    return None


def explore(ctx, fn, **kw):
    return ctx.explore(fn, generic=has_wc, policy=scale_policy, **kw)


def jms_keys(eft, pick=min):
    """the coefficients of the JMS basis of this EFT: no b in the four
    flavour theory, no c in the three flavour theory"""
    K = jms.keys(pick)
    n = {'WET': (3, 2), 'WET-4': (2, 2), 'WET-3': (2, 1)}[eft]
    out = {}
    for k, r in K.items():
        f, _, i = k.partition('_')
        if i and any((t == 'd' and int(x) > n[0]) or
                     (t == 'u' and int(x) > n[1])
                     for t, x in zip(jms.FAM[f], i)):
            continue
        out[k] = r
    return out


def running(lab, p, scale=SCALE):
    q = lab.mod('wcxf.util.qcd')
    r = dict(p)
    r['m_b'] = lab.call(q.m_b, p['m_b'], scale, 5, p['alpha_s'])
    r['m_s'] = lab.call(q.m_s, p['m_s'], scale, 5, p['alpha_s'])
    r['alpha_s'] = lab.call(q.alpha_s, scale, 5, p['alpha_s'])
    return r


def par(lab, p=None, scale=SCALE):
    p = p or lab.defaults
    V = models.ckm_atoms((p['Vus'], p['Vub'], p['Vcb'], p['gamma']))
    return wet.Par(running(lab, p, scale), V)


_bk = {}


def keys_of(eft, basis, pick=min):
    if basis == 'JMS':
        return jms_keys(eft, pick)
    if (eft, basis) not in _bk:
        A = wc_atoms(jms_keys(eft))
        V = models.ckm_atoms(tuple(Sym.atom(k) for k in
                                   ('Vus', 'Vub', 'Vcb', 'gamma')))
        p = {k: Sym.atom(k, positive=True) for k in
             ('alpha_e', 'alpha_s', 'GF', 'm_b', 'm_s', 'm_e', 'm_mu',
              'm_tau')}
        P = wet.Par(p, V)
        f = {'Bern': wet.jms_to_bern, 'flavio': wet.jms_to_flavio,
             'EOS': wet.jms_to_eos, 'formflavor': wet.jms_to_formflavor}
        _bk[eft, basis] = {k: False for k, v in f[basis](A, P).items()
                           if v.t}
    return dict(_bk[eft, basis])


def setup(ctx, pick=min, efts=('WET', 'WET-4', 'WET-3'), **kw):
    """abstract package with the model bases of all the WETs registered"""
    lab = ctx.lab(**kw)
    for e in efts:
        lab.eft(e)
        for b in ('JMS', 'Bern', 'flavio'):
            lab.basis(e, b, keys_of(e, b, pick))
    return lab


def generic_scale(cond, eng):
    """parameters and scale all different from each other"""
    if cond[0] not in ('nz', 'close') or has_wc(cond[1]):
        return None
    return cond[0] == 'nz'


def kinds(keys, prefix=''):
    """abstract inputs: generic, all real, all imaginary (where the
    coefficient is complex); a condition on a part of a coefficient is decided
    differently in each of them"""
    A = wc_atoms(keys, prefix)
    yield 'complex', A
    yield 'real', {k: v.real for k, v in A.items()}
    yield 'imaginary', {k: v if v.is_real() else I_ * v.imag
                        for k, v in A.items()}


def explore_kinds(ctx, keys, fn, prefix=''):
    """(A, trace, outcome) of fn(A): generic input on all partitions of the
    scale, real and imaginary input at a generic scale"""
    for what, A in kinds(keys, prefix):
        for tr, o in ctx.explore(lambda: fn(A), generic=has_wc,
                                 policy=scale_policy if what == 'complex'
                                 else generic_scale):
            yield A, tr, o


def fam(k):
    return k.split('_')[0]


def codes(items):
    """(items with bit b set, items with bit b clear) for all b"""
    items = list(items)
    b = 0
    while (1 << b) < max(2, len(items)):
        yield [k for i, k in enumerate(items) if i >> b & 1]
        yield [k for i, k in enumerate(items) if not i >> b & 1]
        b += 1


def halves(keys):
    """the two halves for every bit of a binary code of the families"""
    fams = sorted({fam(k) for k in keys})
    for n, c in enumerate(codes(fams)):
        c = set(c)
        yield 'family code %d' % n, [k for k in keys if fam(k) in c]


def few(keys, step=1):
    """small inputs, for a route that asks how many coefficients there are:
    one and two coefficients of every family"""
    fams = {}
    for k in keys:
        fams.setdefault(fam(k), []).append(k)
    for f in sorted(fams)[::step]:
        ks = fams[f]
        n = len(ks)
        for ks in [ks[i:i + 1] for i in sorted({0, n // 4, n // 2, n - 1})] \
                + [ks[n // 3:n // 3 + 2]]:
            yield 'only %s given' % ' and '.join(ks), ks


def partial_input(A, present):
    """(the input with only these coefficients, the same with zeros)"""
    pr = set(present)
    return ({k: A[k] for k in present},
            {k: A[k] if k in pr else Sym.const(0) for k in A})


def route(ctx, eft, src, dst, exp, select=None, pick=min, keys=None):
    keys = keys or keys_of(eft, src, pick)
    sized = set()

    def fn(A):
        lab = setup(ctx, pick)
        lab.it.names = set(A)
        lab.it.sized.clear()
        P = par(lab)
        out = lab, P, lab.translate(eft, src, dst, A)
        sized.update(lab.it.sized)
        return out
    name = '%s %s -> %s' % (eft, src, dst)

    def check(name, A, tr, o):
        if not o.ok:
            ctx.violation(o.where(), '%s %s' % (name, o.show()))
            return
        lab, P, got = o.value
        e = exp(A, P)
        if select:
            e = {k: v for k, v in e.items() if select(k)}
            got = {k: v for k, v in got.items() if select(k)}
        ctx.compare(e, got, name, lab, tr)
    for A, tr, o in explore_kinds(ctx, keys, fn):
        check(name, A, tr, o)
    if pick is not min:
        return
    # partial inputs at a generic scale
    A = wc_atoms(keys)
    t0 = time.time()
    for what, present in list(halves(A)) + (list(few(A)) if sized else []):
        if what[0] == 'o' and time.time() - t0 > 200:
            ctx.partial.append(name + ': small inputs')
            break
        B, Z = partial_input(A, present)
        for tr, o in ctx.explore(lambda: fn(B), generic=has_wc,
                                 policy=generic_scale):
            check('%s (%s)' % (name, what), Z, tr, o)
