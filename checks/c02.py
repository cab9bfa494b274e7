"""Dataflow through the validation of coefficient files for every kind of
registry state and coefficient set, with assertion statements executed and
with assertion statements stripped: validation returns normally exactly if the
EFT and the basis of that EFT are registered and every coefficient name is
defined in one of the sectors of the basis."""
from .baselab import *

LEVEL = 'proof'


def states():
    """(description, setup(lab), known coefficient names or None)"""
    def none(lab):
        pass

    def other(lab):
        lab.eft('E-2')
        lab.basis('E-2', 'B', ['X'])

    def eft_only(lab):
        lab.eft('E')

    def eft_only2(lab):
        lab.eft('E')
        lab.basis('E-2', 'B', ['a', 'b'])
        lab.basis('E', 'B up', ['a', 'b'])

    def basis_only(lab):
        lab.basis('E', 'B', ['a', 'b'])

    def basis_only2(lab):
        lab.eft('E-2')
        lab.basis('E', 'B', ['a', 'b'])

    def both(lab):
        lab.eft('E', ('s1', 's2', 's3'))
        lab.call(lab.wcxf.Basis, 'E', 'B',
                 {'s1': {'a': None, 'b': {'real': True}}, 's2': {'c': {}},
                  's3': {}})

    def more(lab):
        lab.eft('E-2')
        lab.basis('E-2', 'B', ['zz'])
        both(lab)
        lab.basis('E', 'B up', ['zz'])
        lab.call(lab.wcxf.Basis, 'E', 'child', {'s3': {'zz': {}}},
                 parent='B')

    def child(lab):
        lab.eft('E', ('s1', 's2', 's3'))
        lab.call(lab.wcxf.Basis, 'E', 'P',
                 {'s1': {'a': {}, 'b': {}}, 's2': {'old': {}}})
        lab.call(lab.wcxf.Basis, 'E', 'B', {'s2': {'c': {}}}, parent='P')

    def replaced(lab):
        lab.basis('E', 'B', ['zz'])
        b = lab.call(lab.get(lab.wcxf.Basis, 'get_instance'), ('E', 'B'))
        lab.get(b, 'all_wcs')
        both(lab)

    def deleted(lab):
        both(lab)
        lab.call(lab.get(lab.wcxf.Basis, 'del_instance'), ('E', 'B'))

    def cleared(lab):
        both(lab)
        lab.call(lab.get(lab.wcxf.EFT, 'clear_all'))
    ok = ('a', 'b', 'c')
    return [('nothing registered', none, None),
            ('only another EFT', other, None),
            ('EFT without bases', eft_only, None),
            ('EFT with other bases', eft_only2, None),
            ('basis but no EFT', basis_only, None),
            ('basis but only another EFT', basis_only2, None),
            ('EFT and basis', both, ok), ('several bases', more, ok),
            ('child basis', child, ok), ('basis redefined', replaced, ok),
            ('basis deleted', deleted, None), ('EFTs cleared', cleared, None)]


VALUES = [(), ('a',), ('c',), ('b', 'c'), ('a', 'b', 'c'), ('zz',),
          ('a', 'zz'), ('zz', 'c', 'b', 'a'), ('old',), ('A',), ('s1',),
          ('a', 'b', 'c', 'd'), ('',), ('a ',), ('aa',), ('ab', 'b'), ('B',)]

# names that extend or shorten those of the file, or differ in case only
NAMES = [('E', 'B'), ('E-2x', 'B'), ('e', 'b'), ('', '')]


def run(ctx):
    x, y = real('x'), real('y')
    W = 'validation of coefficient files'
    for opt in (False, True):
        for what, st, known in states():
            with ctx.rule('%s%s' % (what, ', without assertions' if opt
                                    else '')):
                for ks in VALUES:
                    def fn():
                        lab = ctx.lab(optimize=opt)
                        st(lab)
                        vals = {k: (x if i % 2 else {'Re': x, 'Im': y})
                                for i, k in enumerate(ks)}
                        w = lab.call(lab.wcxf.WC, 'E', 'B', SCALE, vals)
                        v0 = dict(vals)
                        r = ctx.run(lambda: lab.m(w, 'validate'))
                        return lab, r, equal(v0, lab.get(w, 'values'))
                    for tr, o in ctx.explore(fn, mode='split'):
                        if not o.ok:
                            ctx.violation(o.where(), 'preparation '
                                          + o.show())
                            continue
                        lab, r, un = o.value
                        good = known is not None and set(ks) <= set(known)
                        if good:
                            ctx.ok(r.ok, r.where() if not r.ok else W,
                                   '%s: valid coefficients %s are rejected: '
                                   '%s' % (what, ks, r.show()))
                        else:
                            ctx.ok(not r.ok and isinstance(r.exc, Exception),
                                   W, '%s: invalid file with coefficients %s '
                                   'passes validation' % (what, ks))
                        ctx.ok(un, W, 'validation modifies the values')
    with ctx.rule('after earlier validations'):
        # the verdict follows the state at the time of the call
        def changes(lab, w):
            yield 'registered', True, lambda: both_(lab)
            yield 'validated before', True, lambda: None
            yield 'another file was invalid', True, lambda: ctx.run(
                lambda: lab.m(lab.call(lab.wcxf.WC, 'E', 'B', SCALE,
                                       {'zz': 1}), 'validate'))
            yield 'unknown name added', False, \
                lambda: lab.get(w, 'values').__setitem__('zz', 0)
            yield 'unknown name removed', True, \
                lambda: lab.get(w, 'values').__delitem__('zz')
            yield 'basis redefined', False, lambda: lab.basis('E', 'B',
                                                              ['zz'])
            yield 'basis redefined again', True, lambda: both_(lab)
            yield 'EFT deleted', False, lambda: lab.call(
                lab.get(lab.wcxf.EFT, 'del_instance'), 'E')
            yield 'EFT registered again', True, lambda: lab.eft('E')
            yield 'basis deleted', False, lambda: lab.call(
                lab.get(lab.wcxf.Basis, 'del_instance'), ('E', 'B'))

        def both_(lab):
            lab.eft('E')
            lab.basis('E', 'B', ['a', 'b'])

        def seq():
            lab = ctx.lab()
            w = lab.call(lab.wcxf.WC, 'E', 'B', SCALE, {'a': x, 'b': y})
            out = []
            for what, good, f in changes(lab, w):
                f()
                out.append((what, good, ctx.run(lambda: lab.m(w, 'validate'))))
            return out
        for tr, o in ctx.explore(seq, mode='split'):
            if not o.ok:
                ctx.violation(o.where(), 'history ' + o.show())
                continue
            for what, good, r in o.value:
                ctx.ok(r.ok == good, r.where() if not r.ok else W,
                       '%s: %s file is %s' % (what, 'valid' if good else
                                              'invalid', 'accepted' if r.ok
                                              else 'rejected'))
    with ctx.rule('similar names'):
        for e, b in NAMES:
            for e2, b2 in NAMES:
                def fn():
                    lab = ctx.lab()
                    lab.eft(e)
                    lab.basis(e, b, ['a'])
                    lab.basis(e2, b, ['a'])
                    lab.eft(e)
                    w = lab.call(lab.wcxf.WC, e2, b2, SCALE, {'a': x})
                    return ctx.run(lambda: lab.m(w, 'validate'))
                for tr, o in ctx.explore(fn, mode='split'):
                    if not o.ok:
                        ctx.violation(o.where(), 'preparation ' + o.show())
                        continue
                    ctx.ok(o.value.ok == ((e, b) == (e2, b2)), W,
                           'EFT %s, basis %s registered: file for EFT %s, '
                           'basis %s is %s' % (e, b, e2, b2, 'accepted' if
                                               o.value.ok else 'rejected'))
    ctx.expect_at_least('registry states', len(states()) * 2, 24)
