"""SMEFT Warsaw basis: coefficient families, the fields carried by the flavour
indices, index symmetries, flavour rotations and the tree-level matching onto
the WET (JMS basis).  Written from the operator definitions (arXiv:1008.4884,
1709.04486), not from the code under analysis."""
from fractions import Fraction as Fr
from itertools import product
from vf.symb import Sym, lift, sqrt

SCALARS = ['G', 'Gtilde', 'W', 'Wtilde', 'phi', 'phiBox', 'phiD', 'phiG',
           'phiB', 'phiW', 'phiWB', 'phiGtilde', 'phiBtilde', 'phiWtilde',
           'phiWtildeB']
# fields of the indices; '*' = conjugated field
FIELDS = {}
for _l, _r, _n in (('l', 'e', 'ephi eW eB'), ('q', 'u', 'uphi uG uW uB'),
                   ('q', 'd', 'dphi dG dW dB'), ('u', 'd', 'phiud')):
    for _k in _n.split():
        FIELDS[_k] = (_l + '*', _r)
for _k, _f in dict(phil1='l', phil3='l', phie='e', phiq1='q', phiq3='q',
                   phiu='u', phid='d').items():
    FIELDS[_k] = (_f + '*', _f)
FIELDS['llphiphi'] = ('l', 'l')
for _k, _f in dict(ll='ll', qq1='qq', qq3='qq', lq1='lq', lq3='lq', ee='ee',
                   uu='uu', dd='dd', eu='eu', ed='ed', ud1='ud', ud8='ud',
                   le='le', lu='lu', ld='ld', qe='qe', qu1='qu', qu8='qu',
                   qd1='qd', qd8='qd').items():
    FIELDS[_k] = (_f[0] + '*', _f[0], _f[1] + '*', _f[1])
FIELDS.update(ledq=('l*', 'e', 'd*', 'q'), quqd1=('q*', 'u', 'q*', 'd'),
              quqd8=('q*', 'u', 'q*', 'd'), lequ1=('l*', 'e', 'q*', 'u'),
              lequ3=('l*', 'e', 'q*', 'u'), duql=('d', 'u', 'q', 'l'),
              qque=('q', 'q', 'u', 'e'), qqql=('q', 'q', 'q', 'l'),
              duue=('d', 'u', 'u', 'e'))
HERM2 = {'phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid'}
HERM4 = {'lq1', 'lq3', 'eu', 'ed', 'ud1', 'ud8', 'le', 'lu', 'ld', 'qe',
         'qu1', 'qd1', 'qu8', 'qd8'}
SWAP4 = {'ll', 'qq1', 'qq3', 'uu', 'dd'}
FIERZ4 = {'ee'}


def orbit(fam, idx):
    """elements equal (False) or conjugate (True) to fam[idx]"""
    out = {(tuple(idx), False)}
    work = list(out)
    while work:
        i, c = work.pop()
        new = []
        if fam in HERM2:
            new.append(((i[1], i[0]), not c))
        elif fam == 'llphiphi':
            new.append(((i[1], i[0]), c))
        elif fam == 'qque':
            new.append(((i[1], i[0], i[2], i[3]), c))
        elif fam in HERM4 | SWAP4 | FIERZ4:
            p, r, s, t = i
            new.append(((r, p, t, s), not c))
            if fam not in HERM4:
                new.append(((s, t, p, r), c))
            if fam in FIERZ4:
                new.append(((p, t, s, r), c))
        for n in new:
            if n not in out:
                out.add(n)
                work.append(n)
    return out


QQQL_DEP = {}       # dependent element -> [(coefficient, element)]
for _p, _r in product((1, 2, 3), repeat=2):
    if _p < _r:
        # C_rpp = C_ppr, C_rrp = C_prr
        QQQL_DEP[_r, _p, _p] = [(1, (_p, _p, _r))]
        QQQL_DEP[_r, _r, _p] = [(1, (_p, _r, _r))]
QQQL_DEP[3, 1, 2] = [(1, (2, 1, 3)), (1, (2, 3, 1)), (-1, (1, 3, 2))]
QQQL_DEP[3, 2, 1] = [(1, (1, 2, 3)), (1, (1, 3, 2)), (-1, (2, 3, 1))]


def indices(fam):
    return product((1, 2, 3), repeat=len(FIELDS[fam]))


def label(fam, idx):
    return fam + '_' + ''.join(map(str, idx))


def keys(mass=False):
    """{key: is_real}: one representative (smallest index) per orbit"""
    out = {k: True for k in SCALARS}
    for fam in FIELDS:
        for idx in indices(fam):
            if fam == 'qqql':
                if idx[:3] not in QQQL_DEP:
                    out[label(fam, idx)] = False
                continue
            if fam == 'llphiphi' and mass:
                if idx[0] == idx[1]:
                    out[label(fam, idx)] = False
                continue
            o = orbit(fam, idx)
            rep = min(i for i, c in o)
            if rep == idx:
                out[label(fam, idx)] = (rep, True) in o
    return out


def full(atoms, fam, idx):
    """tensor element (1-based) from the non-redundant values"""
    idx = tuple(idx)
    if fam == 'qqql' and idx[:3] in QQQL_DEP:
        return sum((c * lift(full(atoms, fam, i + idx[3:]))
                    for c, i in QQQL_DEP[idx[:3]]), lift(0))
    for i, c in orbit(fam, idx):
        k = label(fam, i)
        if k in atoms:
            v = lift(atoms[k])
            return v.conjugate() if c else v
    return lift(0)


def tensor(atoms, fam):
    return {i: full(atoms, fam, i) for i in indices(fam)}


def conjm(U):
    return [[lift(x).conjugate() for x in r] for r in U]


def dagger(U):
    return [[lift(U[j][i]).conjugate() for j in range(3)] for i in range(3)]


def rotate(T, fields, U):
    """apply psi_old = U[psi] psi_new to the tensor T {idx: value}"""
    for n, f in enumerate(fields):
        M = U.get(f.rstrip('*'))
        if M is None:
            continue
        if f.endswith('*'):
            M = conjm(M)
        T2 = {}
        for idx in T:
            acc = lift(0)
            for j in (1, 2, 3):
                m = M[j - 1][idx[n] - 1]
                if not lift(m).t:
                    continue
                acc = acc + m * T[idx[:n] + (j,) + idx[n + 1:]]
            T2[idx] = acc
        T = T2
    return T


def rotate_all(atoms, U, out_keys):
    """{key: value} of the rotated coefficients for the keys in out_keys"""
    out = {}
    fams = {}
    for k in out_keys:
        f, _, i = k.partition('_')
        if not i:
            if k in atoms:
                out[k] = lift(atoms[k])
            continue
        fams.setdefault(f, []).append(tuple(int(x) for x in i))
    for f, idxs in fams.items():
        T = tensor(atoms, f)
        if not any(v.t for v in T.values()):
            continue
        T = rotate(T, FIELDS[f], U)
        for i in idxs:
            out[label(f, i)] = T[i]
    return out
