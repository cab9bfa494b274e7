"""Reference structure of the three-loop running of the strong coupling and the
quark masses: which theory is run where, and which threshold is crossed
between neighbouring theories.  The numerical library is uninterpreted."""
from fractions import Fraction as Fr
from vf.symb import Sym, lift
from vf.models import _Nf

MZ = lift(Fr('91.1876'))
LOOPS = 3
# threshold between f-1 and f flavours
TH = {6: lift(170), 5: lift(Fr('4.8')), 4: lift(Fr('1.3'))}
MC = TH[4]


def fn(name, *a):
    return Sym.fn('rundec.' + name, *a, positive=True)


def th(f):
    """decoupling of flavour number f (theory above the threshold)"""
    n = _Nf()
    n.nf, n.Mth, n.muth = f, TH[f], TH[f]
    return n


def path(f0, f1):
    """flavour thresholds crossed from f0 to f1, in order"""
    if f1 < f0:
        return list(range(f0, f1, -1))
    return list(range(f0 + 1, f1 + 1))


def alpha_s(mu, f, a):
    if f == 5:
        return fn('AlphasExact', a, MZ, mu, f, LOOPS)
    p = path(5, f)
    x, at = lift(a), MZ
    for i, n in enumerate(p):
        to = lift(mu) if i == len(p) - 1 else MC
        x = fn('AlH2AlL' if f < 5 else 'AlL2AlH', x, at, th(n), to, LOOPS)
        at = to
    return x


def mass(m, at, f0, mu, f, a):
    """m(at) in the f0-flavour theory -> m(mu) in the f-flavour theory"""
    if f == f0:
        return fn('mMS2mMS', m, alpha_s(at, f0, a), alpha_s(mu, f, a), f,
                  LOOPS)
    p = path(f0, f)
    x, cur = lift(m), f0
    for i, n in enumerate(p):
        to = lift(mu) if i == len(p) - 1 else MC
        x = fn('mH2mL' if f < f0 else 'mL2mH', x, alpha_s(at, cur, a), at,
               th(n), to, LOOPS)
        cur += -1 if f < f0 else 1
        at = to
    return x


def m_b(m, mu, f, a):
    return mass(m, m, 5, mu, f, a)


def m_c(m, mu, f, a):
    return mass(m, m, 4, mu, f, a)


def m_s(m, mu, f, a):
    return mass(m, lift(2), 3, mu, f, a)
