"""Shared set-up of the SMEFT analyses."""
from fractions import Fraction as Fr
import numpy as np
from vf import symb, models
from vf.symb import Sym, same, lift
from vf.lab import SCALE, wc_atoms
from vf.npmodel import NDArr
from spec import jms, smeft
from .wetlab import has_wc, scale_policy, explore, keys_of, \
    explore_kinds, halves, partial_input, generic_scale

I_ = Sym({((symb.I, 1),): Fr(1)}, 'c')


def svals(m):
    """model of ckmutil.diag.msvd: U, singular values (functions of the whole
    matrix), V"""
    s = np.empty((3,), dtype=object)
    for i in range(3):
        s[i] = Sym.fn('sv%d' % (i + 1), m)
    return None, NDArr(s, 'f'), None


def unitary(n=0):
    """exact unitary matrices over Q(i) without vanishing elements"""
    R = [[[2, -1, 2], [2, 2, -1], [-1, 2, 2]],
         [[6, 2, 3], [-3, 6, 2], [2, 3, -6]],
         [[4, 4, 7], [-8, 1, 4], [1, -8, 4]]][n % 3]
    N = [3, 7, 9][n % 3]
    ph = [(Fr(3, 5), Fr(4, 5)), (Fr(5, 13), Fr(-12, 13)),
          (Fr(8, 17), Fr(15, 17)), (Fr(7, 25), Fr(24, 25)),
          (Fr(1), Fr(0)), (Fr(20, 29), Fr(-21, 29))]
    z = [Sym.const(a) + I_ * Sym.const(b) for a, b in ph]
    d = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            d[i, j] = Sym.const(Fr(R[i][j], N)) * z[(i + n) % 6] * \
                z[3 + (j + n) % 3]
    return d


def rat_ckm():
    """ckm model: a different exact unitary matrix per parameter set"""
    seen = {}

    def f(*a):
        k = tuple(symb.keyof(x) for x in a)
        if k not in seen:
            seen[k] = len(seen)
        return NDArr(unitary(seen[k]).copy(), 'c')
    f.seen = seen
    return f


def identity_ckm(*a):
    d = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            d[i, j] = Sym.const(int(i == j), kind='c')
    return NDArr(d, 'c')


def rows(V):
    d = V.a if hasattr(V, 'a') else V
    return [[lift(V[i, j]) for j in range(3)] for i in range(3)]


WARSAW = smeft.keys()
MASS = smeft.keys(mass=True)
ALLKEYS = dict({k: True for k in smeft.SCALARS})
for _f in smeft.FIELDS:
    for _i in smeft.indices(_f):
        ALLKEYS[smeft.label(_f, _i)] = False


def setup(ctx, wet=False, allkeys=False, **kw):
    kw.setdefault('ckmutil.msvd', svals)
    lab = ctx.lab(**kw)
    lab.eft('SMEFT')
    for b, k in (('Warsaw', WARSAW), ('Warsaw up', WARSAW),
                 ('Warsaw mass', MASS)):
        lab.basis('SMEFT', b, ALLKEYS if allkeys else k)
    if wet:
        lab.eft('WET')
        for b in ('JMS', 'Bern', 'flavio'):
            lab.basis('WET', b, keys_of('WET', b))
    return lab


def ckm(lab, p=None):
    p = p or lab.defaults
    return models.ckm_atoms((p['Vus'], p['Vub'], p['Vcb'], p['gamma']))
