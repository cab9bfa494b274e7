"""Dataflow into the numerical running library (its functions are
uninterpreted, its threshold settings are tracked at the time of each call):
for every flavour number, abstract scale, input value and coupling the returned
form must be the nesting of library calls that runs from the input's own scale
and theory to the requested one, crossing each threshold between them once and
in order (spec/qcd.py).  Partitions on the scale: own scale of the input,
non-positive, generic.  Sequences of calls that differ in one argument must not
influence each other."""
from .baselab import *
from spec import qcd as ref
import itertools

LEVEL = 'proof'
FUN = {'alpha_s': (3, 4, 5, 6), 'm_b': (3, 4, 5, 6), 'm_c': (3, 4, 5),
       'm_s': (3, 4, 5)}
OWN = {'alpha_s': 5, 'm_b': 5, 'm_c': 4, 'm_s': 3}


def pos(n):
    return Sym.atom(n, positive=True)


AS, M, MU = pos('as(MZ)'), pos('m'), pos('mu')


def call(lab, n, mu, f, m, a, how=0):
    q = lab.mod('wcxf.util.qcd')
    g = getattr(q, n)
    if n == 'alpha_s':
        if a is None:
            return lab.call(g, mu, f)
        return lab.call(g, mu, f, a) if not how else \
            lab.call(g, mu, f, alphasMZ=a)
    if a is None:
        return lab.call(g, m, mu, f)
    return lab.call(g, m, mu, f, a) if not how else \
        lab.call(g, m, mu, f, alphasMZ=a)


def expect(n, mu, f, m, a):
    if n == 'alpha_s':
        return ref.alpha_s(mu, f, a)
    return getattr(ref, n)(m, mu, f, a)


def off_threshold(cond, eng):
    """the scale differs from the scales of the inputs"""
    return {'nz': True, 'close': False}.get(cond[0])


def pieces(v, n, f, own):
    """acceptable results at the input's own scale and flavour number"""
    return [own] + ([v] if n != 'alpha_s' else [])


def run(ctx):
    W = 'wcxf/util/qcd.py: '
    N = 0
    default = lift(Fr('0.1185'))
    for n, fs in FUN.items():
        with ctx.rule('running of ' + n):
            for f in fs:
                for how, a in ((0, AS), (1, AS), (0, None)):
                    def fn():
                        lab = ctx.lab()
                        return lab, lift(call(lab, n, MU, f, M, a, how))
                    for tr, o in ctx.explore(fn, mode='split',
                                             policy=off_threshold):
                        N += 1
                        if not ctx.ok(o.ok, o.where() if not o.ok else W + n,
                                      '%s for %d flavours %s'
                                      % (n, f, o.show())):
                            continue
                        e = expect(n, MU, f, M, a if a is not None
                                   else default)
                        ctx.ok(same(o.value[1], e), W + n,
                               '%s at a generic scale in the %d-flavour '
                               'theory%s is not the three-loop running from '
                               'the input' % (n, f, '' if a is not None else
                                              ' (default coupling)'),
                               detail='expected %s\n     got %s'
                               % (e, o.value[1]))
        with ctx.rule('%s at the scale of the input' % n):
            at = {'alpha_s': ref.MZ, 'm_b': M, 'm_c': M, 'm_s': lift(2)}[n]
            lits = [at]
            if n == 'alpha_s':
                lits = [91.1876]
            if n == 'm_s':
                lits = [2, 2.0]
            if n in ('m_b', 'm_c'):
                lits += [4.18]
            for f in fs:
                for mu in lits:
                    def fn():
                        lab = ctx.lab()
                        m = M if not isinstance(mu, float) or n == 'm_s' \
                            else mu
                        return lab, m, lift(call(lab, n, mu, f, m, AS))
                    for tr, o in ctx.explore(fn, mode='split'):
                        N += 1
                        if not ctx.ok(o.ok, o.where() if not o.ok else W + n,
                                      '%s for %d flavours at its own scale %s'
                                      % (n, f, o.show())):
                            continue
                        lab, m, got = o.value
                        if any(t[0][0] == 'nz' and t[1] is False
                               for t in tr):
                            continue    # coincides with a threshold
                        e = expect(n, mu, f, m, AS)
                        if f == OWN[n]:
                            own = AS if n == 'alpha_s' else lift(m)
                            good = same(got, own) or (n != 'alpha_s' and
                                                      same(got, e))
                        else:
                            good = same(got, e)
                        ctx.ok(good, W + n, '%s in the %d-flavour theory at '
                               'the scale of its input is wrong' % (n, f),
                               detail='expected %s\n     got %s'
                               % (own if f == OWN[n] else e, got))
        with ctx.rule('%s rejects nonsense' % n):
            for f in (0, 1, 2, 7, -1) + ((6,) if 6 not in fs else ()):
                for mu in (MU, 100.0, 91.1876, 2, 4.18):
                    for m in (M, 4.18):
                        def fn():
                            lab = ctx.lab()
                            return call(lab, n, mu, f, m, AS)
                        for tr, o in ctx.explore(fn, mode='split'):
                            N += 1
                            ctx.ok(not o.ok, W + n, '%s for %d flavours '
                                   'returns %s' % (n, f, o.value))
            for f in fs:
                for mu in (0, 0.0, -1, -91.1876, Sym.atom('any')):
                    def fn():
                        lab = ctx.lab()
                        return call(lab, n, mu, f, M, AS)
                    for tr, o in ctx.explore(fn, mode='split',
                                             policy=off_threshold):
                        N += 1
                        if isinstance(mu, Sym):
                            # positive on this partition?
                            p = [(t[1] != t[3]) for t in tr
                                 if t[0][0] == 'lt']
                            if not ctx.ok(bool(p), W + n, '%s does not test '
                                          'the sign of the scale' % n):
                                continue
                            if o.ok:
                                ctx.ok(positive(tr, mu), W + n, '%s accepts '
                                       'a non-positive scale' % n)
                            else:
                                ctx.ok(not positive(tr, mu), o.where(),
                                       '%s rejects a positive scale' % n)
                        else:
                            ctx.ok(not o.ok, W + n, '%s accepts the scale %s'
                                   % (n, mu))
    with ctx.rule('sequences of calls'):
        M2, A2, MU2 = pos('m2'), pos('as2'), pos('mu2')
        calls = []
        for n, fs in FUN.items():
            for f in fs:
                calls += [(n, MU, f, M, AS), (n, MU2, f, M, AS),
                          (n, MU, f, M2, AS), (n, MU, f, M, A2),
                          (n, MU, f, M, None), (n, MU, f, M, AS)]

        def fn(order):
            lab = ctx.lab()
            return [(c, lift(call(lab, *c))) for c in order]
        for order in (calls, calls[::-1], calls[::3] + calls[1::3] +
                      calls[2::3]):
            for tr, o in ctx.explore(lambda: fn(order), mode='split',
                                     policy=off_threshold):
                if not ctx.ok(o.ok, o.where() if not o.ok else W,
                              'sequence of calls ' + o.show()):
                    continue
                for c, got in o.value:
                    N += 1
                    e = expect(c[0], c[1], c[2], c[3], c[4] if c[4] is not
                               None else default)
                    ctx.ok(same(got, e), W + c[0], '%s for %d flavours '
                           'depends on earlier calls' % (c[0], c[2]),
                           detail='expected %s\n     got %s' % (e, got))
    ctx.expect_at_least('calls', N, 300)


def positive(tr, mu):
    """whether mu > 0 holds on the partition"""
    for key, v, cond, neg in tr:
        if key[0] != 'lt':
            continue
        truth = v != neg            # value of cond
        op, d = cond[0], cond[1]
        c = d / mu
        if not c.is_const():
            continue
        c = c.const_value()
        if c < 0:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
        if op in ('>', '>='):
            return truth
        return not truth
    return None
