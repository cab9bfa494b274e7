"""Dataflow through every route with partial inputs.  The reference is the
linear form for the complete abstract input; for each subset of present
coefficients (empty, single coefficients, whole families, and the two halves
of every bit of a binary code of families and of coefficients, so that every
pair is separated; one and two coefficients of every family where the route
asks for the number of coefficients) the output must be the reference with the absent
coefficients set to zero, and coefficients given explicitly as zero must be
indistinguishable from absent ones."""
import time
from .routelab import *
from .c10 import generic_scale
from .wetlab import fam, codes, few

LEVEL = 'proof'


def drop(v, absent):
    """the form with the atoms in `absent` set to zero"""
    v = lift(v)
    return Sym({m: c for m, c in v.t.items()
                if not any(a in absent for a, e in m)}, v.kind)


def subsets(keys, deep):
    keys = list(keys)
    yield 'nothing given', []
    for k in keys[::max(1, len(keys) // 4)]:
        yield 'only %s given' % k, [k]
    fams = sorted({fam(k) for k in keys})
    if len(fams) < len(keys):
        for n, c in enumerate(codes(fams)):
            c = set(c)
            yield 'family code %d' % n, [k for k in keys if fam(k) in c]
    if deep:
        for n, c in enumerate(codes(sorted(keys))):
            yield 'coefficient code %d' % n, c


def one(ctx, r):
    sm = r in SMEFTMATCH
    A = source_atoms(r, (40 if r[1] == 'Warsaw' else 10) if sm else
                     (3 if is_smeft(r) and not ctx.thorough else 1))
    subs = list(subsets(A, not sm or ctx.thorough))
    if sm and r[1] == 'Warsaw' and not ctx.thorough:
        subs = subs[:2] + subs[5:9]
    base = pythagorean(3, 4, 5) if sm else {}
    aid = {k: {a for m in v.t for a, e in m} for k, v in A.items()}
    for k, v in A.items():
        aid[k] |= {a for m in v.conjugate().t for a, e in m}
        aid[k] -= {symb.I}

    def fn():
        def hook(it, name, m):
            if name == 'wcxf.parameters':
                m.__dict__['p'].update(base)
        lab = build(ctx, [r], on_import=hook,
                    **(dict(ckm=rat_ckm()) if is_smeft(r) else {}))
        lab.it.names = set(A)
        lab.it.sized.clear()
        return lab, go(lab, r, A)
    n = 0
    for tr, o in ctx.explore(fn, generic=has_wc, policy=generic_scale):
        if not o.ok:
            ctx.violation(o.where(), '%s %s' % (name(r), o.show()))
            continue
        lab, full = o.value
        more = list(few(A, 6 if sm else 1)) if lab.it.sized else []
        t0 = time.time()
        for n0, (what, present) in enumerate(subs + more):
            if n0 > len(subs) and time.time() - t0 > 240:
                ctx.partial.append('%s: %d small inputs' % (
                    name(r), len(subs + more) - n0))
                break
            pr = set(present)
            absent = set()
            for k in A:
                if k not in pr:
                    absent |= aid[k]
            exp = {k: drop(v, absent) for k, v in full.items()}
            B = {k: A[k] for k in present}
            for style in ('absent', 'zero') if what[0] == 'n' or \
                    what == 'family code 0' or ctx.thorough else ('absent',):
                def sub():
                    if style == 'absent':
                        return go(lab, r, B)
                    Z = dict(B)
                    for i, k in enumerate(A):
                        if k not in pr:
                            Z[k] = Sym.const(0)
                    return go(lab, r, Z)
                for tr2, o2 in ctx.explore(sub, generic=has_wc,
                                           policy=generic_scale):
                    w = '%s (%s%s)' % (name(r), what, '' if style == 'absent'
                                       else ', others zero')
                    if not o2.ok:
                        ctx.violation(o2.where(), w + ' ' + o2.show())
                        continue
                    e, got = exp, o2.value
                    if r[-1] == 'Warsaw mass':
                        # singular values of a matrix: not linear
                        e = {k: v for k, v in e.items()
                             if fam(k) != 'llphiphi'}
                        got = {k: v for k, v in got.items()
                               if fam(k) != 'llphiphi'}
                    ctx.compare(e, got, w, lab, tr2)
                    n += 1
    return n


def run(ctx):
    R = SMEFTMATCH + TRANSLATORS + RESTRICT
    v = ctx.par([('partial input of %s' % name(r), lambda r=r: one(ctx, r))
                 for r in R])
    ctx.expect_at_least('routes', sum(1 for x in v if x), len(R))
    ctx.expect_at_least('partial inputs', sum(x or 0 for x in v), 300)
