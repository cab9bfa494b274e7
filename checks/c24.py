"""Dataflow into the SMEFTsim cards: coefficient files with abstract values and
an abstract cutoff scale are converted for both model sets and input schemes;
the written entries are read back and each must be, identically in the
coefficients and the scale, the form that its place (block and index in the
layout table of the model set, spec/smeftsim.py) and its label denote, with at
least seven digits and exactly once.  Label and coefficient are related by the
index symmetries of the operator.  Comparisons of values in the code are
resolved by trace partitioning."""
from .cardlab import *

LEVEL = 'proof'


def literals(seed):
    """values of very different size, sign and phase"""
    out = {}
    for i, (k, r) in enumerate(KEYS.items()):
        j = i * 7 + seed
        x = (1 + j % 13) * 10.0 ** (-(j % 17)) * (-1 if j % 3 else 1)
        y = (1 + j % 11) * 10.0 ** (-(j % 19)) * (-1 if j % 5 < 2 else 1)
        if j % 23 == 0:
            y = 0.0
        if j % 29 == 0:
            x = 0.0
        out[k] = x if r else complex(x, y)
    return out


def scenarios(thorough):
    yield 'all coefficients', atoms(), LAM, lambda k: False
    yield 'real values', atoms(prefix='R:', allreal=True), LAM, lambda k: False
    yield 'all as Re/Im mappings', atoms(prefix='M:'), LAM, lambda k: True
    yield 'literal values', literals(0), 1000, lambda k: False
    yield 'literal values, small scale', literals(5), 0.5, lambda k: False
    yield 'literal mappings', literals(11), 2500.5, lambda k: True
    yield 'negative values', {k: -1e-6 if r else -1e-6 + 0j
                              for k, r in KEYS.items()}, 1e4, lambda k: False
    yield 'small abstract values', {k: v * 1e-9 for k, v in atoms(
        prefix='S:').items()}, LAM, lambda k: False
    yield 'imaginary values', {
        k: real('I:' + k) * (1 if r else I_)
        for k, r in KEYS.items()}, LAM, lambda k: False
    if thorough:
        for i in range(1, 12):
            yield 'literals %d' % i, literals(i * 31), 10.0 ** (i - 4), \
                lambda k: bool(i % 2)


def one(ctx, name, d, lam, mp, ms, sc):
    n = 0
    what = 'set %s, %s, %s' % (ms, sc, name)

    def fn():
        lab = ctx.lab()
        return fill(ctx, lab, make(lab, vals(d, mp)), ms, sc, lam)
    for tr, o in ctx.explore(fn, limit=40):
        if ctx.ok(o.ok, o.where() if not o.ok else W,
                  '%s: %s' % (what, o.show())):
            n += judge(ctx, what, read(ctx, o.value, what, W), ms, sc,
                       settled(d, tr) if tr else d, lam)
    return n


def sequence(ctx, ms):
    """conversions of different files in one process"""
    n = 0
    calls = []
    for i, sc in enumerate(('alpha', 'mw', 'alpha', 'mw', 'mw')):
        d = atoms(prefix='%d:' % i)
        if i in (2, 4):
            d = {k: v for j, (k, v) in enumerate(d.items()) if j % 3 == i % 2}
        calls.append((ms if i != 1 else 'B' if ms == 'A' else 'A', sc, d,
                      Sym.atom('L%d' % i, positive=True)))

    def fn():
        lab = ctx.lab()
        r = []
        for m, sc, d, lam in calls:
            w = make(lab, vals(d))
            r.append(fill(ctx, lab, w, m, sc, lam))
        w = make(lab, vals(calls[0][2]))
        for m in ('A', 'B', ms):
            r.append(fill(ctx, lab, w, m, 'alpha', LAM))
        return r
    for tr, o in ctx.explore(fn, limit=40):
        if not ctx.ok(o.ok, o.where() if not o.ok else W,
                      'conversions in sequence: %s' % o.show()):
            continue
        cs = calls + [(m, 'alpha', calls[0][2], LAM) for m in ('A', 'B', ms)]
        for i, ((m, sc, d, lam), t) in enumerate(zip(cs, o.value)):
            what = 'conversion %d in sequence (set %s)' % (i + 1, m)
            n += judge(ctx, what, read(ctx, t, what, W), m, sc, d, lam)
    return n


def run(ctx):
    jobs = []
    for ms in SETS:
        for sc in SCHEMES:
            for s in scenarios(ctx.thorough):
                jobs.append(('%s / %s / %s' % (ms, sc, s[0]),
                             lambda s=s, ms=ms, sc=sc: one(ctx, *s, ms, sc)))
        jobs.append(('sequence / ' + ms, lambda ms=ms: sequence(ctx, ms)))
    v = ctx.par(jobs)
    ctx.expect_at_least('entries', sum(x or 0 for x in v), 36 * 2500)
