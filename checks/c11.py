"""Effect analysis by dataflow over sequences of calls in one abstract process:
each route is run with two inputs, two scales and two parameter sets, results
are modified between the calls, and other routes run in between; further
sequences change a single parameter, the scale or the values from one call to
the next; inputs with literal values (zeros of all kinds, omitted parts)
and parameter dictionaries with further entries; every result must have the same form as in a fresh process, and the caller's coefficients,
the caller's parameter dictionary, the default parameters, the registered
bases and the route inventory must be unchanged after every call."""
from .routelab import *
from .c10 import NAMES
from vf.check import short

LEVEL = 'proof'
MU2 = Sym.atom('mu2', positive=True)


def snap(o, depth=0):
    """structural snapshot of an abstract value"""
    if depth > 12:
        return '...'
    if isinstance(o, dict):
        return ('d',) + tuple((snap(k), snap(v, depth + 1))
                              for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return ('l',) + tuple(snap(v, depth + 1) for v in o)
    if isinstance(o, (set, frozenset)):
        return ('s',) + tuple(sorted(map(repr, o)))
    try:
        return symb.keyof(o)
    except Exception:
        return repr(type(o))


def public(lab, name):
    c = getattr(lab.wcxf, name)
    return lab.get(c, 'instances')


def world(lab):
    """shared state a route may not touch"""
    W = {'default parameters': snap(lab.mod('wcxf.parameters').p)}
    for k, b in public(lab, 'Basis').items():
        W['basis %s %s' % k] = (snap(lab.get(b, 'sectors')),
                                snap(lab.get(b, 'all_wcs')))
    for k, b in public(lab, 'EFT').items():
        W['EFT %s' % k] = snap(lab.get(b, 'sectors'))
    for n in ('Translator', 'Matcher'):
        W['list of %ss' % n.lower()] = tuple(public(lab, n))
    return W


def chunk(ctx, routes):
    """all calls of the routes in one process, against fresh processes"""
    base = pythagorean(3, 4, 5)
    U = {k: Sym.atom('u:' + k, positive=k != 'gamma') for k in NAMES}
    U.update(pythagorean(5, 12, 13, 'u:'))

    def hook(it, name, m):
        if name == 'wcxf.parameters':
            m.__dict__['p'].update(base)

    def inputs(r):
        sm = r in SMEFTMATCH
        n = 40 if sm else 6 if is_smeft(r) else 2
        A = source_atoms(r, n)
        B = source_atoms(r, n, 1, 'b:')
        return [('first input', A, SCALE, U), ('second input', B, SCALE, None),
                ('first input at another scale', A, MU2, U),
                ('first input again', A, SCALE, U)]
    ckms = {}

    def ck(*a):
        # one unitary matrix per parameter set, the same in all processes
        k = tuple(symb.keyof(x) for x in a)
        if k not in ckms:
            ckms[k] = len(ckms)
        return NDArr(unitary(ckms[k]).copy(), 'c')

    def mk(rs):
        return build(ctx, routes, on_import=hook, ckm=ck)
    n = 0

    def seq():
        lab = mk(routes)
        w0 = world(lab)
        out = []
        for i in range(4):
            for r in routes:
                what, A, mu, P = inputs(r)[i]
                vals = lab.values(A)
                w = lab.call(lab.wcxf.WC, r[0], r[1], mu, vals)
                par = dict(P) if P is not None else None
                s0 = snap(vals), snap(lab.get(w, 'dict')), \
                    snap(lab.get(w, 'values')), snap(lab.get(w, 'scale'))
                p0 = snap(par)
                symb.MODE.jet = r in SMEFTMATCH
                try:
                    kw = {} if par is None else {'parameters': par}
                    o = lab.m(w, 'translate' if len(r) == 3 else 'match',
                              *r[2:], **kw)
                    res = dict(lab.get(o, 'dict'))
                finally:
                    symb.MODE.jet = False
                s1 = snap(vals), snap(lab.get(w, 'dict')), \
                    snap(lab.get(w, 'values')), snap(lab.get(w, 'scale'))
                w1 = world(lab)
                out.append((r, what, i, res, s0 == s1, p0 == snap(par),
                            [k for k in set(w0) | set(w1)
                             if w0.get(k) != w1.get(k)]))
                w0 = w1
                # the caller modifies what it got
                for nm in ('values', 'dict'):
                    d = lab.get(o, nm)
                    for k in list(d)[::2]:
                        d[k] = 4711.0
                    d['junk'] = 1.0
        return lab, out
    for tr, o in ctx.explore(seq, generic=has_wc, policy=generic_scale):
        if not o.ok:
            ctx.violation(o.where(), 'sequence of calls ' + o.show())
            continue
        lab, out = o.value
        fresh = {}
        for r, what, i, res, same_in, same_p, changed in out:
            w = name(r)
            fn = 'function registered for ' + w
            ctx.ok(same_in, fn, '%s (%s): the input coefficients are '
                   'modified' % (w, what))
            ctx.ok(same_p, fn, '%s (%s): the parameters passed by the caller '
                   'are modified' % (w, what))
            ctx.ok(not changed, fn, '%s (%s): modifies %s'
                   % (w, what, ', '.join(sorted(changed))))
            A = inputs(r)[i]
            j = 0 if i == 3 else i
            if (r, j) not in fresh:
                def f1():
                    l2 = mk([r])
                    return l2, go(l2, r, A[1], A[2],
                                  dict(A[3]) if A[3] is not None else None)
                rs = [o2 for t2, o2 in ctx.explore(f1, generic=has_wc,
                                                   policy=generic_scale)]
                fresh[r, j] = rs[0]
            o2 = fresh[r, j]
            if not o2.ok:
                ctx.violation(o2.where(), '%s %s' % (w, o2.show()))
                continue
            l2, exp = o2.value
            ctx.compare(exp, res, '%s, %s, after other calls' % (w, what),
                        l2)
            n += 1
    return n


def steps(ctx, r, part=None):
    """calls that differ from the previous one in a single parameter, the
    scale, or the coefficient values only, against fresh processes"""
    sm = r in SMEFTMATCH
    base = pythagorean(3, 4, 5)
    n = 80 if sm else 20 if is_smeft(r) else 8
    A, B = source_atoms(r, n), source_atoms(r, n, 0, 'b:')
    U = {k: Sym.atom('u:' + k, positive=k != 'gamma') for k in NAMES}
    if sm:
        U.update(pythagorean(3, 4, 5, 'u:'))
    calls = [('first call', A, SCALE, U)]
    for k, p in single_changes(r, U):
        calls.append((k + ' changed', A, SCALE, p))
    P = calls[-1][3]
    calls += [('scale changed', A, MU2, P),
              ('values changed', B, MU2, P),
              ('defaults', B, MU2, None)]
    if part is not None:
        calls = calls[4 * part:4 * part + 5]
    ckms = {}

    def ck(*a):
        k = tuple(symb.keyof(x) for x in a)
        if k not in ckms:
            ckms[k] = len(ckms)
        return NDArr(unitary(ckms[k]).copy(), 'c')

    def hook(it, name, m):
        if name == 'wcxf.parameters' and sm:
            m.__dict__['p'].update(base)

    def mk():
        return build(ctx, [r], on_import=hook,
                     **(dict(ckm=ck) if sm else {}))

    def seq():
        lab = mk()
        return lab, [go(lab, r, C, mu, None if p is None else dict(p))
                     for what, C, mu, p in calls]
    n = 0
    for tr, o in ctx.explore(seq, generic=has_wc, policy=generic_scale):
        if not o.ok:
            ctx.violation(o.where(), '%s: sequence of calls %s'
                          % (name(r), o.show()))
            continue
        lab, res = o.value
        for (what, C, mu, p), got in zip(calls, res):
            def fresh():
                l2 = mk()
                return l2, go(l2, r, C, mu, None if p is None else dict(p))
            for t2, o2 in ctx.explore(fresh, generic=has_wc,
                                      policy=generic_scale):
                if not o2.ok:
                    ctx.violation(o2.where(), '%s %s' % (name(r), o2.show()))
                    continue
                ctx.compare(o2.value[1], got, '%s, %s with respect to the '
                            'previous call' % (name(r), what), lab)
                n += 1
    return n


def literals(ctx, routes):
    """inputs with literal values (zeros of all kinds, numbers given as text,
    parts left out) and parameter dictionaries with further entries"""
    n = 0
    for r in routes:
        base = pythagorean(3, 4, 5)
        ks = list(source_atoms(r, 40 if r in SMEFTMATCH else 3))
        kinds = [0.0, {'Re': 0, 'Im': 0}, 0, {}, '0', {'Re': 0.5},
                 Sym.atom('x', wc=True), -0.0, {'Re': 0, 'Im': 1.5}, {'Im': 0}]

        def vals(off):
            out = {}
            for i, k in enumerate(ks):
                v = kinds[(i + off) % len(kinds)]
                out[k] = dict(v) if isinstance(v, dict) else v
            return out
        par = {'Vus': Sym.atom('u:Vus', positive=True), 'own': 4711,
               'vT': Sym.atom('vT', positive=True), 'm_x': 0}
        for off, P in ((0, par), (3, {}), (7, None)):
            def fn():
                lab = build(ctx, [r], ckm=rat_ckm(), on_import=lambda it, nm,
                            m: m.__dict__['p'].update(base)
                            if nm == 'wcxf.parameters' else None)
                v = vals(off)
                w = lab.call(lab.wcxf.WC, r[0], r[1], SCALE, v)
                q = dict(P) if P is not None else None
                w0 = world(lab)
                s0 = snap(v), snap(lab.get(w, 'dict')), \
                    snap(lab.get(w, 'values')), snap(lab.get(w, 'scale'))
                a = apply(lab, r, w, q)
                s1 = snap(v), snap(lab.get(w, 'dict')), \
                    snap(lab.get(w, 'values')), snap(lab.get(w, 'scale'))
                w1 = world(lab)
                return lab, s0 == s1, snap(q) == snap(P), \
                    [k for k in set(w0) | set(w1) if w0.get(k) != w1.get(k)]
            for tr, o in ctx.explore(fn, generic=has_wc,
                                     policy=generic_scale):
                if not o.ok:
                    ctx.violation(o.where(), '%s, literal values: %s'
                                  % (name(r), o.show()))
                    continue
                lab, a, b, c = o.value
                w = 'function registered for ' + name(r)
                ctx.ok(a, w, '%s: the input coefficients are modified '
                       '(literal values)' % name(r))
                ctx.ok(b, w, '%s: the parameters passed by the caller are '
                       'modified (further entries)' % name(r))
                ctx.ok(not c, w, '%s: modifies %s (literal values)'
                       % (name(r), ', '.join(sorted(c))))
                n += 1
    return n


def run(ctx):
    R = SMEFTMATCH + TRANSLATORS + RESTRICT
    # every process mixes routes of all kinds
    k = 8
    parts = [R[i::k] for i in range(k)]
    S = [r for r in R if r not in SMEFTMATCH or ctx.thorough or
         r == ('SMEFT', 'Warsaw', 'WET', 'flavio')]
    jobs = [('single changes in calls of ' + name(r),
             lambda r=r, p=p: steps(ctx, r, p)) for r in S
            for p in (range(5) if r in SMEFTMATCH else [None])]
    jobs[5:5] = [('calls of %s' % ', '.join(map(name, p)),
                  lambda p=p: chunk(ctx, p)) for p in parts]
    jobs += [('literal values, part %d' % i,
              lambda i=i: literals(ctx, R[i::8])) for i in range(8)]
    v = ctx.par(jobs)
    ctx.expect_at_least('calls', sum(x or 0 for x in v),
                        7 * len(R) + 18 * len(S))
