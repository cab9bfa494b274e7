"""Abstract evaluation of the table of default parameters: every parameter
that a route can use is defined there by a plain finite number, and the number
lies in the range of the measurements of that quantity (in GeV, in the
conventions stated by the routes: MS-bar masses m_b(m_b) and m_s(2 GeV),
alpha_s and alpha_e at the Z mass, the angle gamma in radians).  Relations:
the weak mixing angle that follows from m_W and m_Z, the unitarity of the first
CKM row and column, the ordering of the masses, the Z mass and coupling used
by the running in wcxf/util/qcd.py."""
from .baselab import *
import math

LEVEL = 'proof'
W = 'wcxf/parameters.py'
RANGE = {                       # PDG world averages with a generous margin
    'm_W': (80.33, 80.45), 'm_Z': (91.177, 91.199),
    'GF': (1.16630e-5, 1.16645e-5), 'alpha_e': (1 / 128.2, 1 / 127.7),
    'alpha_s': (0.1150, 0.1215), 'Vus': (0.2225, 0.2265),
    'Vub': (3.2e-3, 4.5e-3), 'Vcb': (0.0380, 0.0435),
    'gamma': (1.05, 1.45), 'm_b': (4.08, 4.28), 'm_s': (0.085, 0.106),
    'm_e': (0.51099e-3, 0.51101e-3), 'm_mu': (0.105657, 0.105660),
    'm_tau': (1.7760, 1.7780)}


def number(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, Sym):
        return float(v.const_value()) if v.is_const() and v.is_real() \
            else None
    if isinstance(v, (int, float, Fr)) and math.isfinite(v):
        return float(v)
    return None


def run(ctx):
    got = []
    with ctx.rule('table of default parameters'):
        def fn():
            lab = ctx.lab(params=None)
            p = lab.get(lab.mod('wcxf.parameters'), 'p')
            q = lab.mod('wcxf.util.qcd')
            z = lab.get(q, 'MZ')
            runs = {}
            for n in ('alpha_s',):
                runs[n] = lab.call(lab.get(q, n), z, 5)
            return dict(p), z, runs
        for tr, o in ctx.explore(fn):
            if not ctx.ok(o.ok, o.where() if not o.ok else W,
                          'reading the parameters ' + o.show()):
                continue
            p, z, runs = o.value
            v = {k: number(x) for k, x in p.items()}
            for k, (a, b) in RANGE.items():
                if ctx.ok(k in v and v[k] is not None, W,
                          'parameter %s is not defined by a number' % k):
                    ctx.ok(a <= v[k] <= b, W, 'default of %s is %r, outside '
                           'the measured range %g to %g' % (k, v[k], a, b))
            for k, x in v.items():
                ctx.ok(x is not None, W, 'parameter %s is not a number' % k)
            if any(v.get(k) is None for k in RANGE):
                continue
            got.append(v)
            s2 = 1 - (v['m_W'] / v['m_Z']) ** 2
            ctx.ok(0.2210 < s2 < 0.2245, W, 'on-shell weak mixing angle '
                   'sin^2 = %.5f from m_W and m_Z' % s2)
            ctx.ok(v['m_e'] < v['m_mu'] < v['m_tau'] and
                   v['m_s'] < v['m_tau'] < v['m_b'] < v['m_W'] < v['m_Z'], W,
                   'order of the masses')
            ctx.ok(v['Vub'] < v['Vcb'] < v['Vus'], W,
                   'order of the CKM elements')
            ctx.ok(number(z) == v['m_Z'], 'wcxf/util/qcd.py: MZ', 'the running '
                   'starts at %r instead of the Z mass %r' % (z, v['m_Z']))
            ctx.ok(number(runs['alpha_s']) == v['alpha_s'],
                   'wcxf/util/qcd.py: alpha_s', 'default coupling %r of the '
                   'running differs from the default parameter %r'
                   % (runs['alpha_s'], v['alpha_s']))
    with ctx.rule('defaults of the running masses'):
        m = Sym.atom('m', positive=True)
        mu = Sym.atom('mu', positive=True)
        for n, fs in (('alpha_s', (3, 4, 5, 6)), ('m_b', (3, 4, 5, 6)),
                      ('m_c', (3, 4, 5)), ('m_s', (3, 4, 5))):
            for f in fs:
                def fn():
                    lab = ctx.lab(params=None)
                    a = lab.get(lab.mod('wcxf.parameters'), 'p')['alpha_s']
                    g = lab.get(lab.mod('wcxf.util.qcd'), n)
                    x = (mu, f) if n == 'alpha_s' else (m, mu, f)
                    return lab.call(g, *x), lab.call(g, *x, alphasMZ=a)
                for tr, o in ctx.explore(fn, policy=lambda c, e: True
                                         if c[0] == 'nz' else None):
                    if ctx.ok(o.ok, o.where() if not o.ok else W,
                              '%s for %d flavours %s' % (n, f, o.show())):
                        ctx.ok(same(*o.value), 'wcxf/util/qcd.py: ' + n,
                               '%s for %d flavours: the default coupling is '
                               'not that of the default parameters' % (n, f))
    ctx.expect_at_least('parameter tables', len(got), 1)
    ctx.expect_at_least('parameters', len(got[0]) if got else 0, 14)
