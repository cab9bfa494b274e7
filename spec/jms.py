"""The WET operator basis of Jenkins, Manohar, Stoffer: coefficient families,
index types and index symmetries (arXiv:1709.04486, App. B).  Written from the
definition of the operators; used as the oracle for the analyses."""
from itertools import product

NE = NN = ND = 3
NU = 2                       # no top quark below the electroweak scale
RANGE = {'e': NE, 'n': NN, 'd': ND, 'u': NU}

# hermitian current x current: C_prst = conj(C_rpts)
HERM = {
    'VnueLL': 'nnee', 'VnuuLL': 'nnuu', 'VnudLL': 'nndd', 'VeuLL': 'eeuu',
    'VedLL': 'eedd', 'V1udLL': 'uudd', 'V8udLL': 'uudd', 'VeuRR': 'eeuu',
    'VedRR': 'eedd', 'V1udRR': 'uudd', 'V8udRR': 'uudd', 'VnueLR': 'nnee',
    'VeeLR': 'eeee', 'VnuuLR': 'nnuu', 'VnudLR': 'nndd', 'VeuLR': 'eeuu',
    'VedLR': 'eedd', 'VueLR': 'uuee', 'VdeLR': 'ddee', 'V1uuLR': 'uuuu',
    'V8uuLR': 'uuuu', 'V1udLR': 'uudd', 'V8udLR': 'uudd', 'V1duLR': 'dduu',
    'V8duLR': 'dduu', 'V1ddLR': 'dddd', 'V8ddLR': 'dddd'}
# additionally symmetric under exchange of the two identical currents
HERMSWAP = {'VuuLL': 'uuuu', 'VddLL': 'dddd', 'VuuRR': 'uuuu',
            'VddRR': 'dddd'}
# the same for leptons, where Fierz identities add C_prst = C_ptsr
HERMFIERZ = {'VeeLL': 'eeee', 'VnunuLL': 'nnnn', 'VeeRR': 'eeee'}
# non-hermitian, symmetric under exchange of the two bilinears
SWAP = {'S1uuRR': 'uuuu', 'S8uuRR': 'uuuu', 'S1ddRR': 'dddd',
        'S8ddRR': 'dddd', 'SeeRR': 'eeee'}
# non-hermitian without index symmetry
FREE = {'VnueduLL': 'nedu', 'VnueduLR': 'nedu', 'V1udduLR': 'uddu',
        'V8udduLR': 'uddu', 'SeuRL': 'eeuu', 'SedRL': 'eedd',
        'SnueduRL': 'nedu', 'SeuRR': 'eeuu', 'TeuRR': 'eeuu',
        'SedRR': 'eedd', 'TedRR': 'eedd', 'SnueduRR': 'nedu',
        'TnueduRR': 'nedu', 'S1udRR': 'uudd', 'S8udRR': 'uudd',
        'S1udduRR': 'uddu', 'S8udduRR': 'uddu'}
TWO = {'egamma': 'ee', 'ugamma': 'uu', 'dgamma': 'dd', 'uG': 'uu',
       'dG': 'dd'}
SCALAR = ['G', 'Gtilde']
# baryon-number violating (q q q l)
BVIOL = {'SuddLL': 'uddn', 'SduuLL': 'duue', 'SduuLR': 'duue',
         'SduuRL': 'duue', 'SdudRL': 'dudn', 'SduuRR': 'duue'}

FAM = {}
for _d in (HERM, HERMSWAP, HERMFIERZ, SWAP, FREE, TWO, BVIOL):
    FAM.update(_d)


def orbit(fam, idx):
    """[(index tuple, conjugate?)] of all elements related to `idx`."""
    out = {(tuple(idx), False)}
    work = [(tuple(idx), False)]
    herm = fam in HERM or fam in HERMSWAP or fam in HERMFIERZ
    swap = fam in HERMSWAP or fam in HERMFIERZ or fam in SWAP
    fierz = fam in HERMFIERZ
    while work:
        (p, r, s, t), c = work.pop()
        new = []
        if herm:
            new.append(((r, p, t, s), not c))
        if swap:
            new.append(((s, t, p, r), c))
        if fierz:
            new.append(((p, t, s, r), c))
        for n in new:
            if n not in out:
                out.add(n)
                work.append(n)
    return out


def indices(fam):
    return product(*[range(1, RANGE[t] + 1) for t in FAM[fam]])


def label(fam, idx):
    return fam + '_' + ''.join(str(i) for i in idx)


def keys(pick=min, families=None):
    """{key: is_real} of one representative per orbit."""
    out = {}
    for fam in FAM:
        if families is not None and fam not in families:
            continue
        for idx in indices(fam):
            if len(FAM[fam]) == 2:
                out[label(fam, idx)] = False
                continue
            o = orbit(fam, idx)
            rep = pick(i for i, c in o)
            real = (rep, True) in {(i, c) for i, c in orbit(fam, rep)}
            out[label(fam, rep)] = real
    if families is None:
        for s in SCALAR:
            out[s] = True
    return out


def full(atoms, fam, idx):
    """Value of the tensor element in terms of representative values
    (`atoms`: key -> value, missing -> 0).  Indices are 1-based."""
    if len(FAM[fam]) == 2:
        return atoms.get(label(fam, idx), 0)
    for i, c in orbit(fam, idx):
        k = label(fam, i)
        if k in atoms:
            v = atoms[k]
            return v.conjugate() if c else v
    return 0
