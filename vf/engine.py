"""Decision engine: resolves branch conditions that the abstract values leave
open.  In `generic` mode a not-identically-zero polynomial counts as non-zero
(no split).  In `split` mode the trace is partitioned on the condition: the
analysis of the entry point is repeated once per consistent assignment of the
open conditions (trace partitioning; no solver)."""
from fractions import Fraction
from . import symb
from .symb import Sym, AnalysisError, _monokey


class PathLimit(AnalysisError):
    pass


def _norm(d):
    """scale so that the leading coefficient is +-1; return (terms, sign)"""
    lead = min(d.t, key=_monokey)
    c = d.t[lead]
    s = 1 if c > 0 else -1
    return frozenset((m, v / c) for m, v in d.t.items()), s


class Engine:
    def __init__(self, mode='generic', limit=4096):
        self.mode = mode
        self.limit = limit
        self.prefix = []
        self.trace = []            # [(key, value)] decisions of this path
        self.facts = {}
        self.pos = 0
        self.assumed = {}          # key -> bool, assumptions for all paths
        self.n_generic = 0
        self.chooser = None
        self.parts = {}            # complex form -> its two parts
        self.far = set()           # tolerance conditions seen
        self.policy = None         # callable(cond) -> bool|None

    def generic_nz(self, d):
        return True

    # ---- canonical condition keys
    def canon(self, cond):
        op = cond[0]
        if op in ('<', '<=', '>', '>='):
            d = cond[1]
            neg = False
            if op == '>':
                d, op = -d, '<'
            elif op == '>=':
                neg, op = True, '<'
            elif op == '<=':
                d, op, neg = -d, '<', True
            n, s = _norm(d)
            # '<' d : sign matters
            return ('lt', n, s), neg
        if op == 'nz':
            d = cond[1]
            if not d.isnan_ and not d.is_real():
                re, im = d.real, d.imag
                if not re.t:
                    d = im
                elif not im.t:
                    d = re
                else:
                    key = ('nz', _norm(d)[0])
                    self.parts[key] = [('nz', _norm(x)[0]) for x in (re, im)]
                    return key, False
            n, s = _norm(d)
            return ('nz', n), False
        if op == 'close':
            self.far.add(('close', _norm(cond[1])[0]) + tuple(cond[2:]))
            return ('close', _norm(cond[1])[0]) + tuple(cond[2:]), False
        return tuple(cond), False

    def tiny(self, cond):
        """a threshold on a generically non-zero quantity: (class of the
        condition, truth for the first answer), None if it is no such
        condition.  The conditions of a class are decided together"""
        if cond[0] == 'close':
            return (('tiny',), True) if self.generic_nz(cond[1]) else None
        if cond[0] not in ('<', '<=', '>', '>='):
            return None
        d = cond[1]
        if d.isnan_:
            return None
        c = d.t.get((), 0)
        ks = set()
        for m, k in d.t.items():
            if m:
                if not self.generic_nz(symb.Sym({m: k}, 'c')):
                    return None
                ks.add(k > 0)
        if c and ks == {c < 0}:
            return ('tiny',), (c < 0) == (cond[0][0] == '<')
        lead = d.t[min((m for m in d.t if m), key=_monokey)]
        return ('side', 0 if not c else 1 if (c > 0) == (lead > 0) else -1), \
            (lead < 0) == (cond[0][0] == '<')

    def known(self, key):
        if key in self.facts:
            return self.facts[key]
        if key in self.assumed:
            return self.assumed[key]
        if key[0] == 'lt':
            o = ('lt', key[1], -key[2])
            if self.facts.get(o, self.assumed.get(o)) is True:
                return False
            if self.facts.get(('nz', key[1]),
                              self.assumed.get(('nz', key[1]))) is False:
                return False
            nz = self.facts.get(('nz', key[1]),
                                self.assumed.get(('nz', key[1])))
            if nz is True and self.facts.get(o, self.assumed.get(o)) is False:
                return True
        if key[0] == 'close' and self.known(('nz', key[1])) is False:
            return True
        if key[0] == 'nz':
            if self.far and any(o[1] == key[1] and self.facts.get(o) is False
                                for o in self.far):
                return True
            v = self.by_parts(key)
            if v is not None:
                return v
            for s in (1, -1):
                o = ('lt', key[1], s)
                if self.facts.get(o, self.assumed.get(o)) is True:
                    return True
        return None

    def by_parts(self, key):
        """a complex number vanishes iff both its parts do"""
        f = lambda k: self.facts.get(k, self.assumed.get(k))
        if key in self.parts:
            v = [self.known(k) for k in self.parts[key]]
            return True if True in v else False if v == [False, False] \
                else None
        for z, ps in self.parts.items():
            if key in ps:
                if f(z) is False:
                    return False
                if f(z) is True and \
                        f(ps[1 - ps.index(key)]) is False:
                    return True
        return None

    def assume(self, cond, value):
        key, neg = self.canon(cond)
        self.assumed[key] = value != neg

    def rounded(self, cond):
        """a rounded number vanishes if the number is small"""
        return cond[0] == 'nz' and cond[1].t and not cond[1].isnan_ and all(
            any(symb.A.info[a]['key'][:2] in self.ROUND for a, e in m)
            for m in cond[1].t) and self.generic_nz(cond[1])

    ROUND = tuple(('fn', n) for n in ('round', 'floor', 'trunc', 'int'))

    def decide(self, cond):
        if self.mode != 'split' and self.rounded(cond):
            return not self.choose(('tiny',), ('tiny',), False)
        if cond[0] == 'nz' and self.mode == 'mixed' and not self.assumed \
                and self.generic_nz(cond[1]) and (
                    self.policy is None or self.policy(cond, self) is None):
            self.n_generic += 1
            return True
        key, neg = self.canon(cond)
        v = self.known(key)
        if v is None and self.mode != 'split':
            t = self.tiny(cond)
            if t is not None:
                # one decision for all coefficients: below every threshold in
                # the code, or above
                v = self.choose(t[0], t[0], False) == t[1]
                self.facts[key] = v != neg
                return v
        if v is None and self.policy is not None:
            v = self.policy(cond, self)
            if v is not None:
                v = v != neg
                self.facts[key] = v
        if v is None and cond[0] == 'nz' and (
                self.mode == 'generic' or
                (self.mode == 'mixed' and self.generic_nz(cond[1]))):
            self.n_generic += 1
            return True
        if v is None:
            if self.mode == 'generic':
                raise AnalysisError('undecided condition %s' % show_cond(cond))
            v = self.choose(key, cond, neg)
        return v != neg

    def choose(self, key, cond, neg):
        if key in self.facts:
            return self.facts[key]
        if self.chooser is not None:
            v = bool(self.chooser(self.pos))
        elif self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.prefix.append(True)
        self.pos += 1
        self.trace.append((key, v, cond, neg))
        self.facts[key] = v
        return v

    def once(self, fn, chooser):
        """one run with the open conditions decided by chooser(index)"""
        self.pos, self.trace, self.facts = 0, [], {}
        self.chooser = chooser
        old = symb.ENGINE
        symb.ENGINE = self
        try:
            out = fn()
        finally:
            symb.ENGINE = old
            self.chooser = None
        return list(self.trace), out

    def explore(self, fn):
        """Run fn() once per assignment; yields (trace, outcome)."""
        self.prefix = []
        n = 0
        while True:
            self.pos = 0
            self.trace = []
            self.facts = {}
            old = symb.ENGINE
            symb.ENGINE = self
            try:
                out = fn()
            finally:
                symb.ENGINE = old
            yield list(self.trace), out
            n += 1
            if n > self.limit:
                raise PathLimit('more than %d trace partitions' % self.limit)
            self.prefix = self.prefix[:self.pos]
            while self.prefix and self.prefix[-1] is False:
                self.prefix.pop()
            if not self.prefix:
                return
            self.prefix[-1] = False


def show_cond(c):
    try:
        if c[0] in ('nz',):
            return '%s != 0' % c[1]
        if c[0] in ('<', '<=', '>', '>='):
            return '%s %s 0' % (c[1], c[0])
        if c[0] == 'close':
            return '%s is within the tolerance of 0' % c[1]
        if c[0] == 'tiny':
            return 'the coefficients are below the thresholds in the code'
        if c[0] == 'side':
            return 'the coefficients are above the thresholds in the code'
        return str(c)
    except Exception:
        return repr(c)


def show_trace(tr):
    return ' and '.join(('%s' if v != neg else 'not (%s)') % show_cond(cond)
                        for key, v, cond, neg in tr) or 'always'
