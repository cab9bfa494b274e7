"""Dataflow for incomplete coefficient files: subsets that separate every pair
of coefficients (by the digits of their number, with complements), the empty
file, single coefficients (one per operator and part; all of them in the
thorough tier), files without one operator, and files with coefficients that
have no place in the card are converted abstractly; entries of missing
coefficients must be zero and the others as in the complete card.  The
coefficient file object is compared before and after."""
from .cardlab import *

LEVEL = 'proof'
NAMES = list(KEYS)


def families():
    f = {}
    for k in NAMES:
        f.setdefault(k.split('_')[0], []).append(k)
    return f


def subsets(thorough):
    yield 'empty file', []
    b = 0
    while 1 << b < len(NAMES):
        for v in (0, 1):
            yield 'digit %d = %d' % (b, v), [
                k for i, k in enumerate(NAMES) if (i >> b & 1) == v]
        b += 1
    fam = families()
    for f, ks in fam.items():
        pick = ks if thorough else sorted({ks[0], ks[-1]} | {
            k for k in (next((k for k in ks if KEYS[k]), None),
                        next((k for k in ks if not KEYS[k]), None)) if k})
        for k in pick:
            yield 'only ' + k, [k]
    for f in fam:
        yield 'without ' + f, [k for k in NAMES if k not in fam[f]]
    yield 'only real ones', [k for k in NAMES if KEYS[k]]
    yield 'only complex ones', [k for k in NAMES if not KEYS[k]]
    yield 'only flavour-blind ones', [k for k in NAMES if '_' not in k]


ALL = {}


def snapshot(lab, wc):
    return {a: plain(lab.get(wc, a))
            for a in ('eft', 'basis', 'scale', 'values', 'dict')}


def chunk(ctx, subs, ms):
    n = 0
    for name, ks, extra, sc in subs:
        what = 'set %s, %s, %s' % (ms, sc, name)
        if not ALL:
            ALL.update(atoms(), **atoms(OTHER, 'X:'))
        d = {k: ALL[k] for k in ks}
        f = dict(d, **{k: ALL[k] for k in extra})

        def fn():
            lab = ctx.lab()
            v = vals(f)
            wc = make(lab, v)
            a = snapshot(lab, wc)
            wc2 = make(lab, vals(f))
            t = fill(ctx, lab, wc2, ms, sc, LAM)
            b = snapshot(lab, wc2)
            return t, a, b, fill(ctx, lab, wc2, ms, sc, LAM)
        for tr, o in ctx.explore(fn, limit=40):
            if not ctx.ok(o.ok, o.where() if not o.ok else W,
                          '%s: %s' % (what, o.show())):
                continue
            t, a, b, t2 = o.value
            n += 1
            judge(ctx, what, read(ctx, t, what, W), ms, sc, d, LAM)
            for x in a:
                ctx.ok(equal(a[x], b[x]), W, '%s: the conversion changes %s '
                       'of the coefficient file' % (what, x))
            ctx.ok(t == t2, W, '%s: a second conversion of the same object '
                   'gives another card' % what)
    return n


def sizes(ctx):
    """literal values, in particular zero, in an incomplete file"""
    n = 0
    for ms in SETS:
        d = {k: (0.0 if r else 0j) if i % 2 else 1e-3
             for i, (k, r) in enumerate(KEYS.items()) if i % 3}
        for kind in ('plain', 'mixed'):
            what = 'set %s, zeros, %s' % (ms, kind)

            def make2(lab):
                v = vals(d)
                if kind == 'mixed':
                    for i, k in enumerate(v):
                        z = v[k]
                        if not isinstance(z, dict):
                            v[k] = [z, str(z), int(z) if int(z) == z else z,
                                    {'Re': z}, {'Re': z, 'Im': 0},
                                    {'Re': str(z), 'Im': -0.0}][i % 6]
                        elif not z['Re'] and not z['Im']:
                            v[k] = [{}, {'Re': 0}, {'Im': 0}, z, 0, -0.0][
                                i % 6]
                return make(lab, v)

            def fn():
                lab = ctx.lab()
                wc, wc2 = make2(lab), make2(lab)
                a = snapshot(lab, wc)
                t = fill(ctx, lab, wc2, ms, 'alpha', 1000)
                return t, a, snapshot(lab, wc2)
            for tr, o in ctx.explore(fn):
                if ctx.ok(o.ok, o.where() if not o.ok else W,
                          '%s: %s' % (what, o.show())):
                    n += 1
                    t, a, b = o.value
                    judge(ctx, what, read(ctx, t, what, W), ms, 'alpha', d,
                          1000)
                    for x in a:
                        ctx.ok(equal(a[x], b[x]), W, '%s: the conversion '
                               'changes %s of the coefficient file'
                               % (what, x))
    return n


def run(ctx):
    subs = []
    for i, (nm, ks) in enumerate(subsets(ctx.thorough)):
        subs.append((nm, ks, (), SCHEMES[i % 2]))
    ot = list(OTHER)
    subs += [('only coefficients without entry', [], ot, 'alpha'),
             ('all and coefficients without entry', NAMES, ot, 'mw'),
             ('one coefficient without entry', NAMES[3:9], ot[:1], 'alpha')]
    k = 80 if ctx.thorough else 24
    jobs = [('subsets %d of set %s' % (i, ms),
             lambda i=i, ms=ms: chunk(ctx, subs[i::k], ms))
            for ms in SETS for i in range(k)]
    jobs.append(('zeros', lambda: sizes(ctx)))
    v = ctx.par(jobs)
    ctx.expect_at_least('conversions', sum(x or 0 for x in v), 2 * len(subs))
