"""Dataflow through the translation and matching entry points with abstract
registered functions: the function is called once with exactly the
coefficients, scale and parameters of the caller; the result carries the target
EFT and basis and the unchanged scale; it contains every non-vanishing output
with its exact value and no vanishing one (the trace is partitioned on which
outputs vanish); a missing route is a ValueError.  The inventory of built-in
routes is compared with the documented one."""
from .baselab import *
from .routelab import TRANSLATORS, MATCHERS
from vf.engine import _norm

LEVEL = 'proof'
W = 'translation and matching of coefficient files'


def one(ctx, kind, outs, via, pars, scale):
    rec = []
    key = ('E', 'b1', 'b2') if kind == 'translator' else \
        ('E', 'b1', 'F', 'b1')
    A = {'a': real('in:a'), 'b': cplx('in:b')}

    def fn():
        del rec[:]
        lab = ctx.lab()
        ret = dict(outs)

        def fun(x, scale, parameters):
            rec.append((dict(x), scale, parameters))
            return ret
        # neighbours that must not be taken
        bad = lambda x, scale, parameters: {'wrong': 1.0}
        for k in (('E', 'b2', 'b1'), ('F', 'b1', 'b2'), ('E', 'b1', 'b3')):
            lab.call(lab.call(lab.wcxf.translator, *k), bad)
        for k in (('E', 'b1', 'F', 'b2'), ('F', 'b1', 'E', 'b1'),
                  ('E', 'b2', 'F', 'b1'), ('E', 'b1', 'G', 'b1')):
            lab.call(lab.call(lab.wcxf.matcher, *k), bad)
        lab.call(lab.call(getattr(lab.wcxf, kind), *key), fun)
        w = lab.wc('E', 'b1', scale, A)
        v0 = plain(lab.get(w, 'values'))
        kw = {} if pars == 'default' else {'parameters': pars}
        if via == 'method':
            o = lab.m(w, 'translate' if kind == 'translator' else 'match',
                      *key[2:], **kw)
        else:
            c = lab.it.getitem(getattr(
                lab.wcxf, 'Translator' if kind == 'translator' else
                'Matcher'), key)
            o = lab.m(c, 'translate' if kind == 'translator' else 'match',
                      w, **kw)
        d = dict(lab.get(o, 'dict'))
        return (lab, o, d, list(rec), equal(v0, plain(lab.get(w, 'values'))),
                equal(plain(lab.get(w, 'dict')), plain(A)), ret)
    what = '%s via %s' % (kind, via)
    n = 0
    for tr, o in ctx.explore(fn, mode='split', limit=600):
        if not ctx.ok(o.ok, o.where() if not o.ok else W,
                      '%s %s' % (what, o.show())):
            continue
        lab, out, d, calls, un1, un2, ret = o.value
        n += 1
        ctx.ok(len(calls) == 1, W, '%s: the registered function is called '
               '%d times' % (what, len(calls)))
        for x, s, p in calls:
            ctx.ok(equal(x, A), W, '%s: the function receives other '
                   'coefficients' % what, detail=str(x))
            ctx.ok(same(lift(s), lift(scale)), W, '%s: the function receives '
                   'another scale' % what)
            e = None if pars == 'default' else pars
            ctx.ok((p is None or p == {}) if not e else
                   isinstance(p, dict) and equal(dict(p), e), W,
                   '%s: the function receives other parameters' % what,
                   detail=str(p))
        te = 'E' if kind == 'translator' else 'F'
        tb = 'b2' if kind == 'translator' else 'b1'
        ctx.ok(lab.get(out, 'eft') == te, W, what + ': wrong EFT')
        ctx.ok(lab.get(out, 'basis') == tb, W, what + ': wrong basis')
        ctx.ok(same(lift(lab.get(out, 'scale')), lift(scale)), W,
               what + ': wrong scale')
        ctx.ok(un1 and un2, W, what + ': the input is modified')
        vals = lab.get(out, 'values')
        ctx.ok(set(vals) == set(d), W, what + ': values and numbers differ')
        for k, z in outs.items():
            nz = nonzero(z, tr)
            z = lift(z)
            if nz is False:
                ctx.ok(k not in d, W, '%s: vanishing coefficient is kept'
                       % what)
            elif k not in d:
                # dropped: allowed only where the value is known to vanish
                ctx.ok(False, W, '%s: non-vanishing coefficient is dropped'
                       % what, detail=str(z))
            else:
                e = z
                if z.t and not z.isnan_ and z.imag.t and \
                        dict((t[0], t[1]) for t in tr).get(
                            ('nz', _norm(z.imag)[0])) is False:
                    e = z.real
                ctx.ok(same(lift(d[k]), e), W, '%s: coefficient value '
                       'changes' % what, detail='%s -> %s' % (z, d[k]))
                v = vals[k]
                ctx.ok(is_plain(v) or isinstance(v, dict) and
                       set(v) == {'Re', 'Im'} and
                       all(is_plain(y) for y in v.values()), W,
                       '%s: stored value is not a plain number' % what,
                       detail=str(v))
        for k in d:
            ctx.ok(k in outs, W, '%s: unexpected coefficient %s' % (what, k))
    return n


def run(ctx):
    r, c, s = real('r'), cplx('c'), real('s')
    npc = Sym.atom('n', real=False, wc=True, npy=True)
    small = Sym.const(Fr(1, 10 ** 300))
    outsets = [{'r': r, 'c': c}, {'zero': 0, 'zf': 0.0, 'zc': 0j, 'k': 2.0},
               {}, {'n': npc, 'i': I_ * s}, {'tiny': small, 'sum': r - s},
               {'neg': -2.5, 'one': 1}]
    n = 0
    for kind in ('translator', 'matcher'):
        for via in ('method', 'object'):
            for i, outs in enumerate(outsets):
                for pars in ('default', None, {}, {'m_b': real('mb')}):
                    with ctx.rule('%s via %s' % (kind, via)):
                        n += one(ctx, kind, outs, via, pars,
                                 SCALE if i % 2 else 160)
    with ctx.rule('missing route'):
        for st in range(3):
            for m, a in (('translate', ('b2',)), ('translate', ('b1',)),
                         ('match', ('F', 'b1')), ('match', ('E', 'b2')),
                         ('match', ('WET', 'JMS')), ('translate', ('JMS',))):
                def fn():
                    lab = ctx.lab()
                    if st == 1:
                        f = lambda x, scale, parameters: dict(x)
                        for k in (('E', 'b2', 'b3'), ('F', 'b1', 'b2'),
                                  ('E', 'b2', 'b1'), ('F', 'JMS', 'JMS')):
                            lab.call(lab.call(lab.wcxf.translator, *k), f)
                        for k in (('F', 'b1', 'E', 'b1'),
                                  ('E', 'b2', 'F', 'b1'),
                                  ('E', 'b1', 'F', 'b2')):
                            lab.call(lab.call(lab.wcxf.matcher, *k), f)
                    if st == 2:
                        for k in ('Translator', 'Matcher'):
                            lab.call(lab.get(getattr(lab.wcxf, k),
                                             'clear_all'))
                    w = lab.wc('E', 'b1', SCALE, {'a': r})
                    return ctx.run(lambda: lab.m(w, m, *a))
                for tr, o in ctx.explore(fn, mode='split'):
                    if not o.ok:
                        ctx.violation(o.where(), 'preparation ' + o.show())
                        continue
                    x = o.value
                    ctx.ok(not x.ok and isinstance(x.exc, ValueError), W,
                           '%s%s without a route %s instead of raising '
                           'ValueError' % (m, a, x.show()))
    with ctx.rule('built-in routes'):
        lab = ctx.lab()
        for c, doc in (('Translator', TRANSLATORS), ('Matcher', MATCHERS)):
            got = set(instances(lab, c))
            for k in doc:
                ctx.ok(tuple(k) in got, W, 'built-in %s %s is missing'
                       % (c.lower(), ' '.join(k)))
            for k in got - set(map(tuple, doc)):
                ctx.note()
                # a new route is fine; it must be filed under its own names
            for k, o in instances(lab, c).items():
                names = [lab.get(o, a) for a in (
                    ('eft', 'from_basis', 'to_basis') if c == 'Translator'
                    else ('from_eft', 'from_basis', 'to_eft', 'to_basis'))]
                ctx.ok(tuple(names) == tuple(k), W, '%s %s is filed under '
                       'another name' % (c, names))
    ctx.expect_at_least('partitions', n, 96)
