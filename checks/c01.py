"""Dataflow of abstract real and imaginary parts through the coefficient
container in both directions; the trace is partitioned on whether the
imaginary part vanishes.  Every accepted spelling of a value (number, integer,
numeral, mapping with either part absent) must give exactly that number, and
a numeric result must be stored as a plain real number exactly if its
imaginary part vanishes, otherwise as a mapping of two plain real numbers."""
from collections import OrderedDict
from .baselab import *
from vf.npmodel import NDArr

LEVEL = 'proof'


def read(ctx, vals, scale=SCALE):
    def fn():
        lab = ctx.lab()
        w = lab.call(lab.wcxf.WC, 'E', 'B', scale, vals)
        d1 = dict(lab.get(w, 'dict'))
        d2 = dict(lab.get(w, 'dict'))
        return lab, w, d1, d2
    return ctx.explore(fn, mode='split')


def run(ctx):
    a, b = real('a'), real('b')
    R = [(a, a), (0.25, Fr(1, 4)), (3, 3), (0, 0), ('1e-3', Fr(1, 1000)),
         ('-2.5', Fr(-5, 2)), ('7', 7), (Sym.const(0), 0),
         ({'Re': a, 'Im': b}, a + I_ * b), ({'Re': a}, a),
         ({'Im': b}, I_ * b), ({'Im': b, 'Re': a}, a + I_ * b), ({}, 0),
         ({'Re': '1e-3', 'Im': '2'}, Fr(1, 1000) + 2 * I_),
         ({'Re': 1, 'Im': -3}, 1 - 3 * I_), ({'Re': 0, 'Im': b}, I_ * b),
         ({'Re': a, 'Im': 0}, a), (-a, -a), ({'Re': -a, 'Im': -b},
                                             -a - I_ * b)]
    # mappings read from YAML are ordered
    R += [(OrderedDict(v), e) for v, e in R if isinstance(v, dict)]
    W = 'reading the value of a coefficient'
    with ctx.rule('values given'):
        for n, (v, e) in enumerate(R):
            vals = {'X': v, 'Y': b, 'Z': {'Re': b, 'Im': a}}
            exp = {'X': e, 'Y': b, 'Z': b + I_ * a}
            for tr, o in read(ctx, vals):
                if not ctx.ok(o.ok, o.where() if not o.ok else W,
                              'value %s: %s' % (v, o.show())):
                    continue
                lab, w, d1, d2 = o.value
                ctx.compare(exp, d1, 'value %s' % (v,), lab, tr,
                            drop_zero=False, where=W)
                ctx.compare(exp, d2, 'value %s (second access)' % (v,), lab,
                            tr, drop_zero=False, where=W)
                ctx.ok(same(lab.get(w, 'scale'), SCALE), 'the container',
                       'the scale is changed')
    with ctx.rule('scale'):
        for s, e in ((160, 160), ('4.2', Fr(21, 5)), (91.25, Fr(365, 4)),
                     (-3, -3), (0, 0), (real('s'), real('s')),
                     (SCALE, SCALE)):
            for tr, o in read(ctx, {}, s):
                ctx.ok(o.ok and same(o.value[0].get(o.value[1], 'scale'),
                                     lift(e))
                       and is_plain(o.value[0].get(o.value[1], 'scale')),
                       'the container', 'scale %s is not read as the number'
                       % (s,))
    with ctx.rule('not a number'):
        for v in ('abc', None, [1], {'Re': 'x'}, {'Im': None}):
            for tr, o in read(ctx, {'X': v}):
                ctx.ok(not o.ok and isinstance(o.exc, (ValueError,
                                                       TypeError)), W,
                       'value %r is accepted: %s' % (v, o.show()))
    c = cplx('z')
    npy = Sym.atom('w', real=False, wc=True, npy=True)
    npr = Sym.atom('r', wc=True, npy=True)
    nums = [('complex', c), ('real', a), ('imaginary', I_ * b),
            ('complex with vanishing imaginary part', Sym(a.t, 'c')),
            ('numpy complex', npy), ('numpy real', npr), ('integer', 3),
            ('zero', 0.0), ('float', 0.5)]
    with ctx.rule('numeric results'):
        for n, v in nums:
            def fn():
                lab = ctx.lab()
                src = {'X': v, 'Y': c}
                vals = lab.call(lab.get(lab.wcxf.WC, 'dict2values'), src)
                w = lab.call(lab.wcxf.WC, 'E', 'B', SCALE, vals)
                return lab, vals, dict(lab.get(w, 'dict')), src
            for tr, o in ctx.explore(fn, mode='split'):
                if not ctx.ok(o.ok, o.where() if not o.ok else W,
                              'storing a %s number %s' % (n, o.show())):
                    continue
                lab, vals, back, src = o.value
                # on the partition where an imaginary part vanishes the
                # number is its real part
                for k, x in src.items():
                    z = lift(x)
                    st = vals.get(k)
                    zero = vanishes(z, tr)
                    w = 'storing the value of a coefficient'
                    if zero:
                        ctx.ok(is_plain(st) and same(lift(st), z.real), w,
                               '%s number with vanishing imaginary part is '
                               'not stored as a plain number' % n,
                               detail=str(st))
                        ctx.ok(k in back and same(lift(back[k]), z.real), w,
                               '%s number changes when stored' % n)
                    else:
                        ctx.ok(isinstance(st, dict) and set(st) ==
                               {'Re', 'Im'} and
                               all(is_plain(y) for y in st.values()) and
                               same(lift(st['Re']), z.real) and
                               same(lift(st['Im']), z.imag), w,
                               '%s number is not stored as Re/Im mapping'
                               % n, detail=str(st))
                        ctx.ok(k in back and same(lift(back[k]), z), w,
                               '%s number changes when stored' % n)
    ctx.expect_at_least('obligations', ctx.obligations, 100)


def vanishes(z, tr):
    """imaginary part zero identically or by the partition's conditions"""
    z = lift(z)
    im = z.imag
    if not im.t:
        return True
    from vf.engine import _norm
    k, s = _norm(im)
    for key, v in ((t[0], t[1]) for t in tr):
        if key[0] == 'nz' and key[1] == k:
            return not v
    return False
