"""Dataflow of exact forms through `flavor_rotation`: five matrices and all
coefficients (every component of every tensor) are independent complex atoms,
so that the computed forms are the rotation for every choice of matrices and
coefficients.  Every index of every operator must be contracted with the
matrix of its own field (conjugated for barred fields, taken from the operator
definitions in spec/smeft.py), operators without flavour handed on, absent
operators stay absent, the arguments stay unchanged."""
from .smeftlab import *

LEVEL = 'proof'
W = 'wcxf/util/smeftutil.py: flavor_rotation'
U = ('q', 'u', 'd', 'l', 'e')


def matrix(f):
    d = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            d[i, j] = Sym.atom('U%s%d%d' % (f, i + 1, j + 1), real=False)
    return d


def tensor(fam):
    n = len(smeft.FIELDS[fam])
    d = np.empty((3,) * n, dtype=object)
    for i in smeft.indices(fam):
        d[tuple(j - 1 for j in i)] = Sym.atom(smeft.label(fam, i), real=False,
                                              wc=True)
    return d


def expected(T, fields, M):
    for n, f in enumerate(fields):
        m = M[f[0]]
        if f.endswith('*'):
            m = np.array([[x.conjugate() for x in r] for r in m],
                         dtype=object)
        T = np.moveaxis(np.tensordot(T, m, (n, 0)), -1, n)
    return T


def rotation(ctx, what, fams, scalars, M, style):
    """style: how the matrices are passed"""
    T = {f: tensor(f) for f in fams}
    S = {s: Sym.atom(s, wc=True) for s in scalars}

    def fn():
        lab = ctx.lab()
        lab.start()
        f = lab.get(lab.mod('wcxf.util.smeftutil'), 'flavor_rotation')
        C = {k: NDArr(v.copy(), 'c') for k, v in T.items()}
        C.update(S)
        mats = [NDArr(M[x].copy(), 'c') for x in U]
        if style == 'positional':
            out = lab.call(f, C, *mats)
        else:
            out = lab.call(f, C, **{'U' + x: m for x, m in zip(U, mats)})
        return C, mats, out
    for tr, o in ctx.explore(fn):
        if not o.ok:
            ctx.violation(o.where(), '%s: rotation %s' % (what, o.show()))
            continue
        C, mats, out = o.value
        ctx.ok(set(out) == set(T) | set(S), W, '%s: operators %s appear or '
               'disappear' % (what, sorted(set(out) ^ (set(T) | set(S)))))
        for s, v in S.items():
            ctx.ok(s in out and same(out[s], v), W,
                   '%s: operator %s without flavour changed' % (what, s),
                   detail=str(out.get(s)))
        for f, t in T.items():
            if f not in out:
                continue
            e = expected(t, smeft.FIELDS[f], M)
            g = out[f]
            if not ctx.ok(tuple(getattr(g, 'shape', ())) == e.shape, W,
                          '%s: %s is not a tensor of shape %s'
                          % (what, f, e.shape)):
                continue
            for i in np.ndindex(e.shape):
                ctx.ok(same(g[i], e[i]), W, '%s: component %s_%s is not '
                       'rotated by the matrices of the fields %s'
                       % (what, f, ''.join(str(j + 1) for j in i),
                          ' '.join(smeft.FIELDS[f])),
                       detail='computed %.300s expected %.300s'
                       % (g[i], e[i]))
            ctx.ok(all(same(a, b) for a, b in
                       zip(np.ravel(t), np.ravel(C[f].data))), W,
                   '%s: the tensor %s passed in is changed' % (what, f))
        for x, m in zip(U, mats):
            ctx.ok(all(same(a, b) for a, b in
                       zip(np.ravel(M[x]), np.ravel(m.data))), W,
                   '%s: the matrix U%s passed in is changed' % (what, x))


def run(ctx):
    M = {f: matrix(f) for f in U}
    fams = list(smeft.FIELDS)
    two = [f for f in fams if len(smeft.FIELDS[f]) == 2]
    four = [f for f in fams if len(smeft.FIELDS[f]) == 4]
    with ctx.rule('two-fermion and bosonic operators'):
        rotation(ctx, 'two-fermion and bosonic operators', two,
                 smeft.SCALARS, M, 'positional')
    for n in range(0, len(four), 6):
        part = four[n:n + 6]
        with ctx.rule('four-fermion operators ' + ' '.join(part)):
            rotation(ctx, 'four-fermion operators', part, (), M, 'positional')
    with ctx.rule('single operators and none'):
        rotation(ctx, 'no operator', (), (), M, 'keywords')
        for f in two:
            rotation(ctx, f + ' alone', (f,), (), M, 'keywords')
        for s in smeft.SCALARS:
            rotation(ctx, s + ' alone', (), (s,), M, 'keywords')
    with ctx.rule('single four-fermion operators by keyword'):
        for f in four:
            rotation(ctx, f + ' alone', (f,), (), M, 'keywords')
    ctx.expect_at_least('components', ctx.obligations, 4000)
