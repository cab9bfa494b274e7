"""Reference maps between the WET bases, derived from the operator
definitions (not from the code under analysis):

* Bern four-quark / semileptonic operators of the type (qbar Gamma q)(fbar
  Gamma f) with Gamma = gamma, gamma^3 (three gamma matrices), 1, sigma and
  gamma^4; using
      gamma^3 (x) gamma^3 : 16 on equal, 4 on opposite chiralities
      gamma^4 (x) gamma^4 : 64 S - 16 T on equal, 16 S on opposite chiralities
  so that with LL, LR the chirality coefficients of the vector structures and
  RR, RL, T those of the scalar/tensor structures
      C1 = (4 LR - LL)/3      C3 = (LL - LR)/12
      C5 = (4 RL - RR)/3      C9 = (RR - RL)/48     C7 = T + 16 C9
* Fierz identities
      (a V_L d)(c V_L b)  = (a V_L b)(c V_L d)          [colours crossed]
      (a V_L d)(c V_R b)  = -2 (a R b)(c L d)           [colours crossed]
      (a R d)(c R b)      = -1/2 (a R b)(c R d) - 1/8 (a sR b)(c sR d)
* colour  T^A_ij T^A_kl = 1/2 (crossed - 1/Nc direct).
"""
from fractions import Fraction as Fr
from vf.symb import Sym, sqrt, lift
from vf import symb
from . import jms

Nc = 3
D = {'d': 1, 's': 2, 'b': 3}
U = {'u': 1, 'c': 2}
LEP = {'e': 1, 'mu': 2, 'tau': 3}
LS = {'e': 1, 'm': 2, 't': 3}
PI = Sym({((symb.PI, 1),): Fr(1)})
I_ = Sym({((symb.I, 1),): Fr(1)}, 'c')


def L(x):
    return lift(x)


def cj(x):
    return L(x).conjugate()


class Par:
    """Parameter point: e, gs, GF, masses, CKM (1-based access)."""

    def __init__(self, p, V):
        self.e = sqrt(4 * PI * p['alpha_e'])
        self.gs = sqrt(4 * PI * p['alpha_s'])
        self.GF = L(p['GF'])
        self.mb = L(p['m_b'])
        self.ms = L(p['m_s'])
        self.ml = {1: L(p['m_e']), 2: L(p['m_mu']), 3: L(p['m_tau'])}
        self.V = lambda i, j: L(V[i - 1, j - 1])
        self.F4 = 4 * self.GF / sqrt(L(2))       # 4 GF/sqrt(2)

    def xi(self, q, b):
        """V_tb V_tq^* for q -> b label order 'qb'"""
        return self.V(3, D[b]) * cj(self.V(3, D[q]))


class JMS:
    """tensor access C('VddLL', 1, 2, 1, 3) honouring the symmetries"""

    def __init__(self, atoms):
        self.atoms = atoms

    def __call__(self, fam, *idx):
        return L(jms.full(self.atoms, fam, idx))


# ------------------------------------------------------------ Delta F = 2

def df2_susy(C, q1, q2, t='d'):
    """SUSY basis (1..5, 1'..3') for (q1bar q2)(q1bar q2)"""
    X = D if t == 'd' else U
    i, j = X[q1], X[q2]
    n = q1 + q2 + q1 + q2
    tt = t + t
    S1, S8 = 'S1%sRR' % tt, 'S8%sRR' % tt
    o = {}
    o['1' + n] = C('V%sLL' % tt, i, j, i, j)
    o['1p' + n] = C('V%sRR' % tt, i, j, i, j)
    # (q1 L q2)^2 is the conjugate of (q2 R q1)^2; T^A -> crossed/2 - 1/(2Nc)
    s1, s8 = cj(C(S1, j, i, j, i)), cj(C(S8, j, i, j, i))
    o['2' + n], o['3' + n] = s1 - s8 / (2 * Nc), s8 / 2
    s1, s8 = C(S1, i, j, i, j), C(S8, i, j, i, j)
    o['2p' + n], o['3p' + n] = s1 - s8 / (2 * Nc), s8 / 2
    # vector LR: direct -> -2 * crossed scalar, octet -> 1/2 crossed
    v1, v8 = C('V1%sLR' % tt, i, j, i, j), C('V8%sLR' % tt, i, j, i, j)
    o['5' + n] = -2 * (v1 - v8 / (2 * Nc))
    o['4' + n] = -2 * (v8 / 2)
    return o


def susy_to_flavio(o, q1, q2, sign=-1):
    """Scalar crossed -> -1/2 S - 1/8 T (flavio); FormFlavor: +1/2"""
    n, m = q1 + q2 + q1 + q2, q2 + q1 + q2 + q1
    r = {}
    for p, H in (('', 'LL'), ('p', 'RR')):
        r['CV%s_%s' % (H, m)] = o['1' + p + n]
        r['CS%s_%s' % (H, m)] = o['2' + p + n] + Fr(sign, 2) * o['3' + p + n]
        r['CT%s_%s' % (H, m)] = -o['3' + p + n] / 8
    r['CVLR_' + m] = -o['5' + n] / 2
    r['CSLR_' + m] = o['4' + n]
    return r


def flavio_to_susy(c, q1, q2):
    n, m = q1 + q2 + q1 + q2, q2 + q1 + q2 + q1
    r = {}
    for p, H in (('', 'LL'), ('p', 'RR')):
        r['1' + p + n] = c('CV%s_%s' % (H, m))
        r['3' + p + n] = -8 * c('CT%s_%s' % (H, m))
        r['2' + p + n] = c('CS%s_%s' % (H, m)) - 4 * c('CT%s_%s' % (H, m))
    r['5' + n] = -2 * c('CVLR_' + m)
    r['4' + n] = c('CSLR_' + m)
    return r


# ------------------------------------------------------------ charged current

CC = [('1', 'VnueduLL', 'CVL'), ('1p', 'VnueduLR', 'CVR'),
      ('5', 'SnueduRL', 'CSR'), ('5p', 'SnueduRR', 'CSL'),
      ('7p', 'TnueduRR', 'CT')]
CCQ = ['cb', 'ub', 'us', 'cs', 'cd', 'ud']


def cc_bern(C):
    o = {}
    for qq in CCQ:
        for l in LEP:
            for n in LEP:
                for b, j, f in CC:
                    o[b + qq + l + n] = cj(C(j, LEP[n], LEP[l], D[qq[1]],
                                             U[qq[0]]))
    return o


def cc_flavio_name(f, qq, l, n):
    return '%s_%s%s%snu%s' % (f, qq[1], qq[0], l, n)


# ------------------------------------------------------------ semileptonic FCNC

FCNC = ['sb', 'db', 'ds']


def sl_chir(C, q, b, l, lp):
    """chirality coefficients of (qbar G b)(lbar G lp)"""
    i, j, m, n = D[q], D[b], LEP[l], LEP[lp]
    return dict(
        LL=C('VedLL', m, n, i, j), LR=C('VdeLR', i, j, m, n),
        RL=C('VedLR', m, n, i, j), RR=C('VedRR', m, n, i, j),
        # quark chirality R (qbar_L b_R): lepton R / lepton L
        SRR=C('SedRR', m, n, i, j), SRL=cj(C('SedRL', n, m, j, i)),
        SLR=C('SedRL', m, n, i, j), SLL=cj(C('SedRR', n, m, j, i)),
        TR=C('TedRR', m, n, i, j), TL=cj(C('TedRR', n, m, j, i)),
        nL=C('VnudLL', m, n, i, j), nR=C('VnudLR', m, n, i, j))


def sl_bern(C):
    o = {}
    for qb in FCNC:
        for l in LEP:
            for lp in LEP:
                x = sl_chir(C, qb[0], qb[1], l, lp)
                n = qb + l + lp
                o['1' + n] = (4 * x['LR'] - x['LL']) / 3
                o['3' + n] = (x['LL'] - x['LR']) / 12
                o['5' + n] = (4 * x['SRL'] - x['SRR']) / 3
                o['9' + n] = (x['SRR'] - x['SRL']) / 48
                o['7' + n] = x['TR'] + 16 * o['9' + n]
                o['1p' + n] = (4 * x['RL'] - x['RR']) / 3
                o['3p' + n] = (x['RR'] - x['RL']) / 12
                o['5p' + n] = (4 * x['SLR'] - x['SLL']) / 3
                o['9p' + n] = (x['SLL'] - x['SLR']) / 48
                o['7p' + n] = x['TL'] + 16 * o['9p' + n]
                o['nu1' + n] = x['nL']
                o['nu1p' + n] = x['nR']
    return o


def sl_from_bern(B, qb, l, lp):
    n = qb + l + lp
    c = lambda k: L(B(k + n))
    return dict(LL=c('1') + 16 * c('3'), LR=c('1') + 4 * c('3'),
                RR=c('1p') + 16 * c('3p'), RL=c('1p') + 4 * c('3p'),
                SRR=c('5') + 64 * c('9'), SRL=c('5') + 16 * c('9'),
                SLL=c('5p') + 64 * c('9p'), SLR=c('5p') + 16 * c('9p'),
                TR=c('7') - 16 * c('9'), TL=c('7p') - 16 * c('9p'),
                nL=c('nu1'), nR=c('nu1p'))


def sl_vec(x):
    """C9/C10-like combinations without normalisation"""
    return {'C9': (x['LR'] + x['LL']) / 2, 'C10': (x['LR'] - x['LL']) / 2,
            'C9p': (x['RR'] + x['RL']) / 2, 'C10p': (x['RR'] - x['RL']) / 2,
            'CS': (x['SRR'] + x['SRL']) / 2, 'CP': (x['SRR'] - x['SRL']) / 2,
            'CSp': (x['SLR'] + x['SLL']) / 2, 'CPp': (x['SLR'] - x['SLL']) / 2,
            'CT': (x['TR'] + x['TL']) / 2, 'CT5': (x['TR'] - x['TL']) / 2}


def sl_flavio(x, qb, l, lp, P):
    """flavio C9.. normalised to (4GF/sqrt2) xi e^2/16pi^2, scalars with mb,
    CL/CR to e^2/8pi^2"""
    norm = 16 * PI * PI / (P.e * P.e) / (P.F4 * P.xi(*qb))
    bq = qb[::-1]
    r = {}
    if qb != 'ds':
        for k, v in sl_vec(x).items():
            if k in ('CT', 'CT5'):
                continue
            f = norm / P.mb if k in ('CS', 'CP', 'CSp', 'CPp') else norm
            r['%s_%s%s%s' % (k, bq, l, lp)] = f * v
    r['CL_%snu%snu%s' % (bq, l, lp)] = norm / 2 * x['nL']
    r['CR_%snu%snu%s' % (bq, l, lp)] = norm / 2 * x['nR']
    return r


# ------------------------------------------------------------ dipoles

def dipole(C, q, b):
    i, j = D[q], D[b]
    return {'7': C('dgamma', i, j), '8': C('dG', i, j),
            '7p': cj(C('dgamma', j, i)), '8p': cj(C('dG', j, i))}


def dip_bern(x, qb, P):
    g2e = P.gs * P.gs / P.e / P.mb
    return {'7gamma' + qb: g2e * x['7'], '8g' + qb: P.gs / P.mb * x['8'],
            '7pgamma' + qb: g2e * x['7p'], '8pg' + qb: P.gs / P.mb * x['8p']}


def dip_from_bern(B, qb, P):
    g2e = P.gs * P.gs / P.e / P.mb
    return {'7': L(B('7gamma' + qb)) / g2e, '7p': L(B('7pgamma' + qb)) / g2e,
            '8': L(B('8g' + qb)) * P.mb / P.gs,
            '8p': L(B('8pg' + qb)) * P.mb / P.gs}


def dip_flavio(x, qb, P):
    n = 16 * PI * PI / P.mb / (P.F4 * P.xi(*qb))
    bq = qb[::-1]
    return {'C7_' + bq: n / P.e * x['7'], 'C7p_' + bq: n / P.e * x['7p'],
            'C8_' + bq: n / P.gs * x['8'], 'C8p_' + bq: n / P.gs * x['8p']}


# ------------------------------------------------------------ four quarks

class Col:
    """coefficient of (direct singlet, octet T^A x T^A) in one channel"""

    def __init__(self, s=0, o=0):
        self.s, self.o = L(s), L(o)

    def __add__(self, x):
        return Col(self.s + x.s, self.o + x.o)

    def scale(self, f):
        return Col(self.s * f, self.o * f)

    def cross(self):
        """rewrite an operator of the exchanged channel: its direct singlet is
        our `crossed` = 1/Nc direct + 2 octet; its octet is
        1/2 (our direct) - 1/(2Nc) (our crossed)"""
        s = self.s / Nc + self.o * (Fr(1, 2) - Fr(1, 2 * Nc * Nc))
        o = 2 * self.s - self.o / Nc
        return Col(s, o)


def fq_generic(C, n):
    """(q1bar q2)(q3bar q4), q1,q2 down; all four structures independent"""
    q1, q2, q3, q4 = n
    i, j = D[q1], D[q2]
    up = q3 in U
    k, l = (U if up else D)[q3], (U if up else D)[q4]
    if up:
        LL = Col(C('V1udLL', k, l, i, j), C('V8udLL', k, l, i, j))
        RR = Col(C('V1udRR', k, l, i, j), C('V8udRR', k, l, i, j))
        LR = Col(C('V1duLR', i, j, k, l), C('V8duLR', i, j, k, l))
        RL = Col(C('V1udLR', k, l, i, j), C('V8udLR', k, l, i, j))
        S = lambda i, j, k, l: Col(C('S1udRR', k, l, i, j),
                                   C('S8udRR', k, l, i, j))
        X = lambda i, j, k, l: Col(C('S1udduRR', k, j, i, l),
                                   C('S8udduRR', k, j, i, l))
        # (q1 V_L q4)(q3 V_R q2)
        W = Col(cj(C('V1udduLR', l, i, j, k)), cj(C('V8udduLR', l, i, j, k)))
        # (q1 V_R q4)(q3 V_L q2)
        Wp = Col(C('V1udduLR', k, j, i, l), C('V8udduLR', k, j, i, l))
    else:
        LL = Col(C('VddLL', i, j, k, l)) + Col(C('VddLL', i, l, k, j)).cross()
        RR = Col(C('VddRR', i, j, k, l)) + Col(C('VddRR', i, l, k, j)).cross()
        LR = Col(C('V1ddLR', i, j, k, l), C('V8ddLR', i, j, k, l))
        RL = Col(C('V1ddLR', k, l, i, j), C('V8ddLR', k, l, i, j))
        S = lambda i, j, k, l: Col(C('S1ddRR', i, j, k, l),
                                   C('S8ddRR', i, j, k, l))
        X = lambda i, j, k, l: Col(C('S1ddRR', k, j, i, l),
                                   C('S8ddRR', k, j, i, l))
        W = Col(C('V1ddLR', i, l, k, j), C('V8ddLR', i, l, k, j))
        Wp = Col(C('V1ddLR', k, j, i, l), C('V8ddLR', k, j, i, l))

    def conj(c):
        return Col(cj(c.s), cj(c.o))
    o = {}

    def vec(p, eq, op):
        for a, c in (('1', 's'), ('2', 'o')):
            o[a + p + n] = (4 * getattr(op, c) - getattr(eq, c)) / 3
        for a, c in (('3', 's'), ('4', 'o')):
            o[a + p + n] = (getattr(eq, c) - getattr(op, c)) / 12

    def sca(p, s, x, w):
        eq = s + x.cross().scale(Fr(-1, 2))
        t = x.cross().scale(Fr(-1, 8))
        op = w.cross().scale(-2)
        for c, (a, b, d) in (('s', '579'), ('o', ('6', '8', '10'))):
            o[a + p + n] = (4 * getattr(op, c) - getattr(eq, c)) / 3
            o[d + p + n] = (getattr(eq, c) - getattr(op, c)) / 48
            o[b + p + n] = getattr(t, c) + 16 * o[d + p + n]
    vec('', LL, LR)
    vec('p', RR, RL)
    sca('', S(i, j, k, l), X(i, j, k, l), W)
    # conjugate flavour order gives the opposite chirality
    sca('p', conj(S(j, i, l, k)), conj(X(j, i, l, k)), Wp)
    return o


def fq_degenerate(C, n):
    """two equal (anti)quarks: colour-crossed structures are Fierz-equivalent
    to direct ones; five operators per chirality, no octets.  The unprimed
    set is the one containing the crossed (q1 V_L q2)(q3 V_R q4)."""
    q1, q2, q3, q4 = n
    i, j, k, l = D[q1], D[q2], D[q3], D[q4]
    o = {}

    def direct(v1, v8):
        return v1 - v8 / (2 * Nc)

    def vec(p, ll, v1, v8):
        lr = direct(v1, v8)
        o['1' + p + n] = (4 * lr - ll) / 3
        o['3' + p + n] = (ll - lr) / 12

    def sca(p, s1, s8, v8):
        # octet scalar: crossed/2 -> -1/4 S - 1/16 T
        eq = direct(s1, s8) - s8 / 4
        t = -s8 / 16
        op = -2 * (v8 / 2)            # crossed vector LR
        o['5' + p + n] = (4 * op - eq) / 3
        o['9' + p + n] = (eq - op) / 48
        o['7' + p + n] = t + 16 * o['9' + p + n]
    v = lambda a, b, c, d: (C('V1ddLR', a, b, c, d), C('V8ddLR', a, b, c, d))
    s = lambda a, b, c, d: (C('S1ddRR', a, b, c, d), C('S8ddRR', a, b, c, d))
    sc = lambda a, b, c, d: tuple(cj(x) for x in s(a, b, c, d))
    vec('', C('VddLL', i, j, k, l), *v(i, j, k, l))
    vec('p', C('VddRR', i, j, k, l), *v(k, l, i, j))
    R = s(i, j, k, l) + (C('V8ddLR', i, l, k, j),)
    Lc = sc(j, i, l, k) + (C('V8ddLR', k, j, i, l),)
    if i == k:
        # crossed (q1 V_L q2)(q1 V_R q4) = -2 (q1 R q4)(q1 L q2)
        sca('', *Lc)
        sca('p', *R)
    else:
        sca('', *R)
        sca('p', *Lc)
    return o


GENERIC = [a + b for a in FCNC for b in ('uu', 'uc', 'cu', 'cc')] + \
    ['sbdd', 'dbss', 'dsbb']
DEGEN = ['sbss', 'dbdd', 'dbbb', 'sbbb', 'dbds', 'sbsd', 'dsss', 'dsdd']


# ------------------------------------------------------------ full routes

def jms_to_bern(atoms, P, what=('df2', 'cc', 'sl', 'dip', 'fq')):
    C = JMS(atoms)
    o = {}
    if 'df2' in what:
        for qb in FCNC:
            o.update(df2_susy(C, *qb))
    if 'cc' in what:
        o.update(cc_bern(C))
    if 'sl' in what:
        o.update(sl_bern(C))
    if 'dip' in what:
        for qb in FCNC:
            o.update(dip_bern(dipole(C, *qb), qb, P))
    if 'fq' in what:
        for n in GENERIC:
            o.update(fq_generic(C, n))
        for n in DEGEN:
            o.update(fq_degenerate(C, n))
    return {k: v / P.F4 for k, v in o.items()}


def jms_to_flavio(atoms, P):
    C = JMS(atoms)
    o = {}
    for qb in FCNC:
        o.update(susy_to_flavio(df2_susy(C, *qb), *qb))
    for qq in CCQ:
        for l in LEP:
            for n in LEP:
                for b, j, f in CC:
                    o[cc_flavio_name(f, qq, l, n)] = -cj(C(
                        j, LEP[n], LEP[l], D[qq[1]], U[qq[0]])) / (
                            P.F4 * P.V(U[qq[0]], D[qq[1]]))
    for qb in FCNC:
        for l in LEP:
            for lp in LEP:
                o.update(sl_flavio(sl_chir(C, qb[0], qb[1], l, lp), qb, l,
                                   lp, P))
    for qb in ('sb', 'db'):
        o.update(dip_flavio(dipole(C, *qb), qb, P))
    return o


def bern_to_flavio(atoms, P):
    B = lambda k: L(atoms.get(k, 0)) * P.F4
    o = {}
    for qb in FCNC:
        x = {k + 2 * qb: B(k + 2 * qb) for k in
             ('1', '2', '3', '4', '5', '1p', '2p', '3p')}
        o.update(susy_to_flavio(x, *qb))
    for qq in CCQ:
        for l in LEP:
            for n in LEP:
                for b, j, f in CC:
                    o[cc_flavio_name(f, qq, l, n)] = -B(b + qq + l + n) / (
                        P.F4 * P.V(U[qq[0]], D[qq[1]]))
    for qb in FCNC:
        for l in LEP:
            for lp in LEP:
                o.update(sl_flavio(sl_from_bern(B, qb, l, lp), qb, l, lp, P))
    for qb in ('sb', 'db'):
        o.update(dip_flavio(dip_from_bern(B, qb, P), qb, P))
    return o


def flavio_to_bern(atoms, P):
    c = lambda k: L(atoms.get(k, 0))
    o = {}
    for qb in FCNC:
        o.update({k: v / P.F4 for k, v in flavio_to_susy(c, *qb).items()})
    for qq in CCQ:
        for l in LEP:
            for n in LEP:
                for b, j, f in CC:
                    o[b + qq + l + n] = -c(cc_flavio_name(f, qq, l, n)) * \
                        P.V(U[qq[0]], D[qq[1]])
    for qb in ('sb', 'db'):
        xi, bq = P.xi(*qb), qb[::-1]
        # C_flavio = norm * chirality coefficient; /F4 for Bern
        nrm = P.e * P.e / (16 * PI * PI) * xi
        for l in LEP:
            for lp in LEP:
                n = qb + l + lp
                g = lambda k: c('%s_%s%s%s' % (k, bq, l, lp)) * nrm
                LR, LL = g('C9') + g('C10'), g('C9') - g('C10')
                RR, RL = g('C9p') + g('C10p'), g('C9p') - g('C10p')
                SRR = (g('CS') + g('CP')) * P.mb
                SRL = (g('CS') - g('CP')) * P.mb
                SLR = (g('CSp') + g('CPp')) * P.mb
                SLL = (g('CSp') - g('CPp')) * P.mb
                o['1' + n], o['3' + n] = (4 * LR - LL) / 3, (LL - LR) / 12
                o['1p' + n], o['3p' + n] = (4 * RL - RR) / 3, (RR - RL) / 12
                o['5' + n] = (4 * SRL - SRR) / 3
                o['9' + n] = (SRR - SRL) / 48
                o['7' + n] = 16 * o['9' + n]
                o['5p' + n] = (4 * SLR - SLL) / 3
                o['9p' + n] = (SLL - SLR) / 48
                o['7p' + n] = 16 * o['9p' + n]
                o['nu1' + n] = 2 * nrm * c('CL_%snu%snu%s' % (bq, l, lp))
                o['nu1p' + n] = 2 * nrm * c('CR_%snu%snu%s' % (bq, l, lp))
        d = xi / (16 * PI * PI)
        o['7gamma' + qb] = d * P.gs * P.gs * c('C7_' + bq)
        o['7pgamma' + qb] = d * P.gs * P.gs * c('C7p_' + bq)
        o['8g' + qb] = d * P.gs * P.gs * c('C8_' + bq)
        o['8pg' + qb] = d * P.gs * P.gs * c('C8p_' + bq)
    return o


# ------------------------------------------------------------ EOS

def eos_hadronic(F):
    """Projection of the (s b)(q q) coefficients onto the EOS b->s::c1..c6.
    F[q] = (LL direct, LL crossed, LR direct, LR crossed) for q."""
    lin = {
        'c1': {'b': (-2, 5, 0), 's': (-2, 5, 0)},
    }
    b, s, c, d, u = (F[q] for q in 'bscdu')
    r = {}
    pen = lambda i: b[i] + c[i] + d[i] + s[i] + u[i]
    tree1, tree2 = u[0] + c[0], u[1] + c[1]
    eq = b[0] + s[0]                      # Fierz-degenerate flavours
    q = lambda n, x: Fr(n, x)
    r['c1'] = tree1 - q(2, 5) * eq - q(6, 5) * d[0] + q(4, 5) * d[1]
    r['c2'] = (tree1 / 6 + tree2 / 2 - q(4, 15) * eq + q(1, 5) * d[0]
               - q(7, 15) * d[1])
    r['c3'] = (q(4, 15) * pen(2) + q(4, 45) * pen(3) - q(4, 45) * eq
               - q(7, 45) * d[0] + q(1, 15) * d[1])
    r['c4'] = (q(8, 15) * pen(3) - q(2, 15) * eq + q(4, 15) * d[0]
               - q(2, 5) * d[1])
    r['c5'] = (-q(1, 60) * pen(2) - q(1, 180) * pen(3) + q(1, 45) * eq
               + q(7, 180) * d[0] - q(1, 60) * d[1])
    r['c6'] = (-q(1, 30) * pen(3) + q(1, 30) * eq - q(1, 15) * d[0]
               + q(1, 10) * d[1])
    return r


def jms_to_eos(atoms, P):
    C = JMS(atoms)
    o = {}
    for l in ('e', 'mu'):
        for b, j, f in CC:
            o['b->u%snu%s::c%s' % (l, l, f[1:])] = -cj(
                C(j, LEP[l], LEP[l], 3, 1)) / (P.F4 * P.V(1, 3))
    nrm = 1 / (P.F4 * P.xi('s', 'b'))
    F = {}
    for q in 'ucdsb':
        if q in U:
            k = U[q]
            v1, v8 = C('V1udLL', k, k, 2, 3), C('V8udLL', k, k, 2, 3)
            ll = (v1 - v8 / (2 * Nc), v8 / 2)
            v1, v8 = C('V1duLR', 2, 3, k, k), C('V8duLR', 2, 3, k, k)
        else:
            k = D[q]
            ll = (C('VddLL', 2, 3, k, k), C('VddLL', 2, k, k, 3))
            v1, v8 = C('V1ddLR', 2, 3, k, k), C('V8ddLR', 2, 3, k, k)
        F[q] = ll + (v1 - v8 / (2 * Nc), v8 / 2)
    for k, v in eos_hadronic(F).items():
        o['b->s::' + k] = nrm * v
    for l in ('e', 'mu'):
        x = sl_vec(sl_chir(C, 's', 'b', l, l))
        n2 = nrm * 16 * PI * PI / (P.e * P.e)
        for k, v in x.items():
            k2 = 'c' + k[1:].replace('p', "'")
            o['b->s%s%s::%s' % (l, l, k2)] = n2 * v
    x = dipole(C, 's', 'b')
    # O7 ~ mb, O7' ~ mb with EOM mixing through ms:
    #   F7 = (mb c7 + ms c7')/16pi^2 ... inverted
    den = P.mb * P.mb - P.ms * P.ms
    n3 = nrm * 16 * PI * PI / den
    for k, g in (('7', P.e), ('8', P.gs)):
        o['b->s::c' + k] = n3 / g * (P.mb * x[k] - P.ms * x[k + 'p'])
        o["b->s::c%s'" % k] = n3 / g * (P.mb * x[k + 'p'] - P.ms * x[k])
    return o


# ------------------------------------------------------------ FormFlavor

def jms_to_formflavor(atoms, P):
    C = JMS(atoms)
    o = {}
    for qb in FCNC:
        o.update(susy_to_flavio(df2_susy(C, *qb), qb[0], qb[1], +1))
    o.update(susy_to_flavio(df2_susy(C, 'u', 'c', 'u'), 'u', 'c', +1))
    for q in ('s', 'd'):
        x = sl_chir(C, q, 'b', 'mu', 'mu')
        n = 'b' + q + 'mm'
        for a in ('LL', 'RR', 'LR', 'RL'):
            o['CV%s_%s' % (a, n)] = x[a]
            o['CS%s_%s' % (a, n)] = x['S' + a]
        o['CTLL_' + n], o['CTRR_' + n] = x['TL'], x['TR']
    for a, f in (('CVLL', 'VnudLL'), ('CVRL', 'VnudLR')):
        o[a + '_sdnn'] = sum((C(f, n, n, 1, 2) for n in (1, 2, 3)), L(0)) / 3

    def dip(n, em, gl, i, j):
        o['CAR_' + n] = C(em, i, j) / P.e
        o['CAL_' + n] = cj(C(em, j, i)) / P.e
        if gl:
            o['CGR_' + n] = C(gl, i, j) / P.gs
            o['CGL_' + n] = cj(C(gl, j, i)) / P.gs
    for n in ('sb', 'db', 'dd'):
        dip(n, 'dgamma', 'dG', D[n[0]], D[n[1]])
    dip('uu', 'ugamma', 'uG', 1, 1)
    for n in ('mt', 'em', 'et'):
        dip(n, 'egamma', None, LS[n[0]], LS[n[1]])
    return o
