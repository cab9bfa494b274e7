"""Dataflow through the construction of bases with a parent, for all shapes of
overlap between the parent's and the child's sectors, chains of three
generations and several children: the child's sectors are the parent's with
the child's own sectors replacing those of the same name, parent and siblings
stay as they were, and a basis whose parent does not exist in the same EFT is
rejected and not registered."""
from .baselab import *
import copy

LEVEL = 'proof'
S = {'s1': {'a': {'tex': 'A'}, 'b': None}, 's2': {'c': {'real': True}},
     's3': {}}
CHILD = [{}, {'s4': {'d': {}}}, {'s1': {'x': {}}}, {'s1': {}},
         {'s2': {'c': {'real': True}, 'y': None}, 's4': {'d': {}}},
         {'s3': {'z': {}}}, {'s1': {'p': {}}, 's2': {'q': {}},
                             's3': {'r': {}}}, {'s2': {'c': {}}}]


def names(secs):
    return [k for s in secs.values() for k in s]


def merged(*gen):
    out = {}
    for g in gen:
        out.update(g)
    return out


def run(ctx):
    W = 'construction of a basis with a parent'

    def check(lab, b, exp, what):
        ctx.ok(equal(plain(lab.get(b, 'sectors')), exp), W,
               '%s: wrong sectors' % what,
               detail='expected %s, got %s' % (exp, lab.get(b, 'sectors')))
        ctx.ok(sorted(lab.get(b, 'all_wcs')) == sorted(names(exp)), W,
               '%s: wrong list of coefficients' % what,
               detail=str(lab.get(b, 'all_wcs')))

    with ctx.rule('child of a basis'):
        for via in ('call', 'json', 'yaml'):
            for n, c in enumerate(CHILD):
                for touch in (False, True):
                    def fn():
                        lab = ctx.lab()
                        lab.eft('E', ('s1', 's2', 's3', 's4'))
                        P = lab.call(lab.wcxf.Basis, 'E', 'P',
                                     copy.deepcopy(S))
                        if touch:
                            lab.get(P, 'all_wcs')
                        mine = copy.deepcopy(c)
                        if via == 'call':
                            C = lab.call(lab.wcxf.Basis, 'E', 'C', mine,
                                         parent='P', metadata={'m': 1})
                        else:
                            import yaml
                            d = dict(eft='E', basis='C', sectors=mine,
                                     parent='P', metadata={'m': 1})
                            t = json.dumps(d) if via == 'json' \
                                else yaml.safe_dump(d)
                            C = lab.call(lab.get(lab.wcxf.Basis, 'load'), t)
                        D = lab.call(lab.wcxf.Basis, 'E', 'D',
                                     {'s4': {'dd': {}}}, parent='P')
                        G = lab.call(lab.wcxf.Basis, 'E', 'G',
                                     {'s2': {'g': {}}}, parent='C')
                        return lab, P, C, D, G, mine
                    for tr, o in ctx.explore(fn, mode='split'):
                        if not o.ok:
                            ctx.violation(o.where(), 'child %d %s'
                                          % (n, o.show()))
                            continue
                        lab, P, C, D, G, mine = o.value
                        ctx.ok(equal(mine, c), W, 'the sectors passed by the '
                               'caller are modified')
                        check(lab, P, S, 'parent after creating a child')
                        check(lab, C, merged(S, c), 'child %d' % n)
                        check(lab, D, merged(S, {'s4': {'dd': {}}}),
                              'second child')
                        check(lab, G, merged(S, c, {'s2': {'g': {}}}),
                              'grandchild')
                        I = instances(lab, 'Basis')
                        ctx.ok(set(I) == {('E', x) for x in 'PCDG'}
                               and I['E', 'C'] is C and I['E', 'P'] is P, W,
                               'the bases are not registered by name')
                        ctx.ok(lab.get(C, 'parent') == 'P' and
                               lab.get(C, 'metadata') == {'m': 1}, W,
                               'additional entries are lost')
    with ctx.rule('parent missing'):
        for st in ('nothing registered', 'other EFT', 'other basis',
                   'deleted', 'itself'):
            for existing in (False, True):
                def fn():
                    lab = ctx.lab()
                    lab.eft('E', ('s1',))
                    if st == 'other EFT':
                        lab.basis('F', 'P', ['a'], 's1')
                    if st == 'other basis':
                        lab.basis('E', 'Q', ['a'], 's1')
                    if st == 'deleted':
                        lab.basis('E', 'P', ['a'], 's1')
                        lab.call(lab.get(lab.wcxf.Basis, 'del_instance'),
                                 ('E', 'P'))
                    old = None
                    if existing:
                        old = lab.basis('E', 'C', ['old'], 's1')
                    b0 = dict(instances(lab, 'Basis'))
                    r = ctx.run(lambda: lab.call(
                        lab.wcxf.Basis, 'E', 'C', {'s1': {'b': {}}},
                        parent='P' if st != 'itself' else 'C2'))
                    return lab, r, b0, dict(instances(lab, 'Basis'))
                for tr, o in ctx.explore(fn, mode='split'):
                    if not o.ok:
                        ctx.violation(o.where(), 'preparation ' + o.show())
                        continue
                    lab, r, b0, b1 = o.value
                    ctx.ok(not r.ok and isinstance(r.exc, ValueError), W,
                           'a basis with a missing parent (%s) is accepted: '
                           '%s' % (st, r.show()))
                    ctx.ok(b0.keys() == b1.keys() and
                           all(b0[k] is b1[k] for k in b0), W,
                           'a basis with a missing parent (%s) is registered'
                           % st)
    with ctx.rule('no parent'):
        for c in CHILD:
            def fn():
                lab = ctx.lab()
                B = lab.call(lab.wcxf.Basis, 'E', 'B', copy.deepcopy(c))
                return lab, B
            for tr, o in ctx.explore(fn, mode='split'):
                if o.ok:
                    check(o.value[0], o.value[1], c, 'basis without parent')
                else:
                    ctx.violation(o.where(), 'basis without parent '
                                  + o.show())
    ctx.expect_at_least('obligations', ctx.obligations, 500)
