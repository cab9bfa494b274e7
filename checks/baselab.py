"""Shared helpers of the analyses of the file classes."""
import json
from fractions import Fraction as Fr
from vf import symb, tokens
from vf.symb import Sym, same, lift
from vf.lab import SCALE
from vf.opq import Opq
from vf.engine import _norm

I_ = Sym({((symb.I, 1),): Fr(1)}, 'c')


def real(n):
    return Sym.atom(n, wc=True)


def cplx(n):
    return Sym.atom(n, real=False, wc=True)


def is_plain(v):
    """a number json and yaml can write as a plain number"""
    if isinstance(v, Sym):
        return not v.npy and v.kind != 'c'
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def text(lab, name, default=''):
    return lab.it.vfs.get(name, default)


def instances(lab, cls):
    """registered names of a class"""
    c = getattr(lab.wcxf, cls)
    try:
        return lab.get(c, 'instances')
    except AttributeError:
        return {}


def plain(o):
    """analysed containers -> ordinary comparable structure"""
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    return o


def equal(a, b):
    """structural equality with exact forms for numbers"""
    num = (Sym, int, float, complex, Fr)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(map(str, a)) == set(map(str, b)) and \
            all(k in b and equal(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, num) and isinstance(b, num):
        return same(lift(a), lift(b))
    if isinstance(a, Opq) or isinstance(b, Opq):
        return isinstance(a, Opq) and isinstance(b, Opq) and a.key == b.key
    return type(a) == type(b) and a == b


def where(lab, *path):
    """source position of an attribute path such as ('WC', 'validate')"""
    return '.'.join(path)


def nonzero(z, tr):
    """True/False/None: whether z vanishes on this partition"""
    z = lift(z)
    if z.isnan_:
        return True
    if not z.t:
        return False
    if z.is_const():
        return True
    re, im = z.real, z.imag
    facts = {t[0]: t[1] for t in tr}
    st = []
    for d in (z, re, im):
        if not d.t:
            st.append(False)
            continue
        st.append(facts.get(('nz', _norm(d)[0])))
    if st[0] is not None:
        return st[0]
    if True in st[1:]:
        return True
    if st[1] is False and st[2] is False:
        return False
    return None


def settled(d, tr):
    """values with the parts removed that vanish on this partition"""
    facts = {t[0]: t[1] for t in tr}
    out = {}
    for k, v in d.items():
        v = lift(v)
        if not v.isnan_ and v.t and not v.is_const():
            for p, i in ((v.real, 1), (v.imag, I_)):
                if p.t and facts.get(('nz', _norm(p)[0])) is False:
                    v = v - p * i
        out[k] = v
    return out
