"""Tree-level matching of the SMEFT (Warsaw basis, up-aligned doublets) onto
the WET in the JMS basis, arXiv:1709.04486: contact terms plus exchange of Z
and W with couplings modified by the Higgs-current operators; input parameters
alpha_e, m_W, m_Z, G_F.  First order in the SMEFT coefficients, V = 1."""
from fractions import Fraction as Fr
from vf.symb import Sym, lift, sqrt
from . import smeft, jms

Nc = 3
# third weak isospin component and charge of the chiral fermions
T3Q = {'nuL': (Fr(1, 2), 0), 'eL': (Fr(-1, 2), -1), 'eR': (0, -1),
       'uL': (Fr(1, 2), Fr(2, 3)), 'uR': (0, Fr(2, 3)),
       'dL': (Fr(-1, 2), Fr(-1, 3)), 'dR': (0, Fr(-1, 3))}


class Match:
    """atoms: SMEFT values; p: parameters (values with exact square roots)"""

    def __init__(self, atoms, p):
        self.at = atoms
        C = self.C
        GF, mW, mZ = lift(p['GF']), lift(p['m_W']), lift(p['m_Z'])
        self.mZ, self.mW = mZ, mW
        # muon decay fixes v_T
        dG = (-C('ll', 2, 1, 1, 2) - C('ll', 1, 2, 2, 1)
              + 2 * C('phil3', 2, 2) + 2 * C('phil3', 1, 1))
        v2 = 1 / (sqrt(lift(2)) * GF)
        self.v2 = v2 * (1 + v2 / 2 * dG)
        self.v = sqrt(v2) * (1 + v2 / 4 * dG)
        e = sqrt(4 * p['pi'] * lift(p['alpha_e']))
        g20 = 2 * mW / sqrt(v2)
        g2 = g20 * (1 - v2 / 4 * dG)
        self.g2 = g2
        ep = lift(atoms.get('phiWB', 0)) * v2          # first order
        # zeroth order g1 and its variation through g2 and eps
        x = sqrt(g20 * g20 - e * e)
        g10 = e * g20 / x
        # d(e g/sqrt(g^2-e^2))/dg = -e^3/x^3
        g1 = g10 - e ** 3 / x ** 3 * (g2 - g20) + e * e * g20 / (x * x) * ep
        n0 = g20 * g20 / x               # sqrt(g1^2+g2^2) at zeroth order
        # s = g1/sqrt(g1^2+g2^2): ds = g2 (g2 dg1 - g1 dg2)/n^3
        w = (g20 * (g1 - g10) - g10 * (g2 - g20)) / n0 ** 3
        r = (g20 ** 2 - g10 ** 2) / n0 ** 2
        self.s = g10 / n0 + g20 * w + ep / 2 * g20 / n0 * r
        self.c = g20 / n0 - g10 * w - ep / 2 * g10 / n0 * r
        s0, c0 = g10 / n0, g20 / n0
        # e_bar and g_Z in terms of s, c
        eb = g2 * self.s - c0 * g20 * ep / 2
        eb0 = g20 * s0
        ds, dc = self.s - s0, self.c - c0
        gz0 = eb0 / (s0 * c0)
        self.gz = (eb / (s0 * c0) - gz0 * (ds / s0 + dc / c0)
                   + gz0 * n0 ** 2 / (2 * g10 * g20) * ep)
        self.gz0, self.g20, self.s0 = gz0, g20, s0
        self.v20 = v2
        self.kz = (gz0 ** 2 + 2 * gz0 * (self.gz - gz0)) / mZ ** 2
        self.kw = (g20 ** 2 + 2 * g20 * (g2 - g20)) / mW ** 2
        self.s2 = s0 ** 2 + 2 * s0 * ds

    def C(self, fam, *i):
        return smeft.full(self.at, fam, i)

    # fermion couplings to Z and W
    def Z(self, f, p, r):
        t, q = T3Q[f]
        x = (t - q * self.s2) if p == r else lift(0)
        h = {'nuL': (('phil1', -1), ('phil3', 1)),
             'eL': (('phil1', -1), ('phil3', -1)), 'eR': (('phie', -1),),
             'uL': (('phiq1', -1), ('phiq3', 1)), 'uR': (('phiu', -1),),
             'dL': (('phiq1', -1), ('phiq3', -1)), 'dR': (('phid', -1),)}[f]
        for fam, sg in h:
            x = x + Fr(sg, 2) * self.v20 * self.C(fam, p, r)
        return x

    def W(self, f, p, r):
        if f == 'r':
            return self.v20 * self.C('phiud', p, r) / 2
        x = lift(1) if p == r else lift(0)
        return x + self.v20 * self.C({'l': 'phil3', 'q': 'phiq3'}[f], p, r)

    def ZZ(self, a, b, p, r, s, t):
        return -self.kz * self.Z(a, p, r) * self.Z(b, s, t)

    def WW(self, a, b, p, r, s, t):
        """-(g^2/2mW^2) W_a[p,r] W_b[t,s]^*"""
        return -self.kw / 2 * self.W(a, p, r) * self.W(b, t, s).conjugate()

    def element(self, fam, idx):
        C = self.C
        i = idx
        if len(i) == 2:
            if fam == 'nu':
                return C('llphiphi', *i) * self.v20 / 2
            k, sg = {'e': ('e', -1), 'u': ('u', 1), 'd': ('d', -1)}[fam[0]] \
                if fam.endswith('gamma') and fam != 'nugamma' else (None, 0)
            v0 = sqrt(self.v20)
            c0, s0 = self.g20 / self.gz0, self.s0
            if k:
                return (sg * s0 * C(k + 'W', *i) + c0 * C(k + 'B', *i)) * \
                    v0 / sqrt(lift(2))
            if fam in ('uG', 'dG'):
                return C(fam, *i) * v0 / sqrt(lift(2))
            return lift(0)
        p, r, s, t = i
        swap = (s, t, p, r)
        if fam in ('VnunuLL', 'VeeLL', 'VeeRR'):
            f = {'VnunuLL': 'nuL', 'VeeLL': 'eL', 'VeeRR': 'eR'}[fam]
            c = C('ll' if fam[-2:] == 'LL' else 'ee', *i)
            return c + (self.ZZ(f, f, p, r, s, t)
                        + self.ZZ(f, f, p, t, s, r)) / 4
        if fam == 'VnueLL':
            return (C('ll', *i) + C('ll', *swap)
                    + self.ZZ('nuL', 'eL', *i) + self.WW('l', 'l', p, t, s, r))
        if fam in ('VuuLL', 'VddLL'):
            f = fam[1] + 'L'
            return C('qq1', *i) + C('qq3', *i) + self.ZZ(f, f, *i) / 2
        if fam in ('VuuRR', 'VddRR'):
            f = fam[1] + 'R'
            return C(fam[1:3], *i) + self.ZZ(f, f, *i) / 2
        if fam == 'V1udLL':
            x = (p, t, s, r)
            y = (s, r, p, t)
            return (C('qq1', *i) + C('qq1', *swap) - C('qq3', *i)
                    - C('qq3', *swap)
                    + Fr(2, Nc) * (C('qq3', *x) + C('qq3', *y))
                    + self.WW('q', 'q', p, t, s, r) / Nc
                    + self.ZZ('uL', 'dL', *i))
        if fam == 'V8udLL':
            return (4 * (C('qq3', p, t, s, r) + C('qq3', s, r, p, t))
                    + 2 * self.WW('q', 'q', p, t, s, r))
        if fam in ('V1udRR', 'V8udRR'):
            # W_R W_R^* is second order (dropped in the linear forms)
            x = C('ud' + fam[1], *i)
            rr = self.WW('r', 'r', p, t, s, r)
            if fam[1] == '1':
                return x + self.ZZ('uR', 'dR', *i) + rr / Nc
            return x + 2 * rr
        LL = {'VnuuLL': ('nuL', 'uL', 1), 'VnudLL': ('nuL', 'dL', -1),
              'VeuLL': ('eL', 'uL', -1), 'VedLL': ('eL', 'dL', 1)}
        if fam in LL:
            a, b, sg = LL[fam]
            return C('lq1', *i) + sg * C('lq3', *i) + self.ZZ(a, b, *i)
        MIX = {'VeuRR': ('eR', 'uR', 'eu'), 'VedRR': ('eR', 'dR', 'ed'),
               'VnueLR': ('nuL', 'eR', 'le'), 'VeeLR': ('eL', 'eR', 'le'),
               'VnuuLR': ('nuL', 'uR', 'lu'), 'VnudLR': ('nuL', 'dR', 'ld'),
               'VeuLR': ('eL', 'uR', 'lu'), 'VedLR': ('eL', 'dR', 'ld'),
               'VueLR': ('uL', 'eR', 'qe'), 'VdeLR': ('dL', 'eR', 'qe'),
               'V1uuLR': ('uL', 'uR', 'qu1'), 'V1udLR': ('uL', 'dR', 'qd1'),
               'V1duLR': ('dL', 'uR', 'qu1'), 'V1ddLR': ('dL', 'dR', 'qd1')}
        if fam in MIX:
            a, b, c = MIX[fam]
            return C(c, *i) + self.ZZ(a, b, *i)
        SIMPLE = {'V8uuLR': ('qu8', 1), 'V8udLR': ('qd8', 1),
                  'V8duLR': ('qu8', 1), 'V8ddLR': ('qd8', 1),
                  'SedRL': ('ledq', 1), 'SnueduRL': ('ledq', 1),
                  'SeuRR': ('lequ1', -1), 'TeuRR': ('lequ3', -1),
                  'SnueduRR': ('lequ1', 1), 'TnueduRR': ('lequ3', 1),
                  'S1udRR': ('quqd1', 1), 'S8udRR': ('quqd8', 1),
                  'SduuRL': ('duql', 1), 'SdudRL': ('duql', -1),
                  'SduuRR': ('duue', 1)}
        if fam in SIMPLE:
            c, sg = SIMPLE[fam]
            return sg * C(c, *i)
        if fam in ('S1udduRR', 'S8udduRR'):
            return -C('quqd' + fam[1], *swap)
        if fam == 'VnueduLL':
            return 2 * C('lq3', *i) + self.WW('l', 'q', *i)
        if fam == 'VnueduLR':
            return self.WW('l', 'r', *i)
        if fam == 'V1udduLR':
            return self.WW('q', 'r', *i)
        if fam in ('SuddLL', 'SduuLL'):
            return -C('qqql', *i) - C('qqql', r, p, s, t)
        if fam == 'SduuLR':
            return -C('qque', *i) - C('qque', r, p, s, t)
        return lift(0)


def match(atoms, p, keys):
    """{JMS key: first-order value, SM contribution subtracted}"""
    m = Match(atoms, p)
    sm = Match({}, p)
    out = {}
    for k in keys:
        f, _, i = k.partition('_')
        if not i:
            out[k] = lift(atoms.get(k, 0))
            continue
        idx = tuple(int(x) for x in i)
        out[k] = m.element(f, idx) - sm.element(f, idx)
    return out


def fields(fam):
    """chiral field of every index; '*' marks the barred ones"""
    from .jms import FAM
    ty = FAM[fam]
    if fam in BV:
        ch, bar = BV[fam], '    '
    elif len(ty) == 2:
        ch, bar = 'LR', '* '
    else:
        bar = '* * '
        if fam[0] == 'V':
            ch = fam[-2] * 2 + fam[-1] * 2
        else:
            ch = {'RR': 'LRLR', 'RL': 'LRRL'}[fam[-2:]]
    return tuple(t + c + b.strip() for t, c, b in zip(ty, ch, bar))


BV = {'SuddLL': 'LLLL', 'SduuLL': 'LLLL', 'SduuLR': 'LLRR', 'SduuRL': 'RRLL',
      'SdudRL': 'RRLL', 'SduuRR': 'RRRR'}


def match_rotated(atoms, p, keys, V):
    """the same with d_L = V d_L': mass eigenstates for a general CKM"""
    from .jms import FAM, indices, label
    m, sm = Match(atoms, p), Match({}, p)
    out = {}
    fams = {}
    for k in keys:
        f, _, i = k.partition('_')
        if not i:
            out[k] = lift(atoms.get(k, 0))
        else:
            fams.setdefault(f, []).append(tuple(map(int, i)))
    for f, idx in fams.items():
        if f not in FAM:
            for i in idx:
                out[label(f, i)] = m.element(f, i) - sm.element(f, i)
            continue
        T = {i: m.element(f, i) - sm.element(f, i) for i in indices(f)}
        T = smeft.rotate(T, fields(f), {'dL': V})
        for i in idx:
            out[label(f, i)] = T[i]
    return out
