"""Exact symbolic scalar domain.

An abstract scalar is a (generalised Laurent) polynomial over hash-consed
atoms with rational coefficients.  Exponents may be rational; `i` is an atom
with i**2 == -1; primes to fractional powers are atoms; a multi-term
polynomial raised to a negative or fractional power becomes a `composite`
atom.  Floating-point rounding is not modelled: literals denote the exact
decimal value they spell.

Each scalar carries the *kind* Python would give it ('f' float, 'c' complex)
and whether it is a numpy scalar (which decides which methods exist on it).
"""
from fractions import Fraction
from functools import lru_cache
import math
import types

F0 = Fraction(0)
F1 = Fraction(1)


class AnalysisError(BaseException):
    """The analysis cannot handle the construct (never catchable by the
    analysed program)."""


class ModelModule(types.ModuleType):
    """model of an external module; what exists in the real module but not in
    the model stops the analysis instead of looking like an error of the
    analysed code"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        name = self.__name__
        try:
            import importlib
            host = importlib.import_module(name)
            known = hasattr(host, n)
        except ImportError:
            known = True
        if known:
            raise AnalysisError('no model for %s.%s' % (name, n))
        raise AttributeError("module '%s' has no attribute '%s'" % (name, n))


# --------------------------------------------------------------------- atoms

class _Atoms:
    def __init__(self):
        self.by_key = {}
        self.info = []

    def get(self, key, real=True, positive=False, wc=False, conj_key=None,
            poly=None):
        i = self.by_key.get(key)
        if i is not None:
            return i
        i = len(self.info)
        self.by_key[key] = i
        self.info.append(dict(key=key, real=real, positive=positive, wc=wc,
                              conj=i, poly=poly))
        if not real:
            ck = conj_key if conj_key is not None else ('conj', key)
            j = len(self.info)
            self.by_key[ck] = j
            self.info.append(dict(key=ck, real=False, positive=False, wc=wc,
                                  conj=i, poly=None))
            self.info[i]['conj'] = j
        return i


A = _Atoms()
I = A.get(('i',))                        # imaginary unit, index 0
A.info[I]['real'] = False                # conj handled specially
PI = A.get(('pi',), positive=True)


def atom_name(i):
    k = A.info[i]['key']
    if k[0] == 'sym':
        return str(k[1])
    if k[0] == 'conj':
        return str(k[1][1]) + '*' if k[1][0] == 'sym' else 'conj(%s)' % (k[1],)
    if k[0] in ('i', 'pi'):
        return k[0]
    if k[0] == 'prime':
        return str(k[1])
    if k[0] == 'poly':
        return '(' + str(A.info[i]['poly']) + ')'
    if k[0] == 'fn':
        return '%s(%s)' % (k[1], ', '.join(_keystr(x) for x in k[2:]))
    return str(k)


def _keystr(x):
    if isinstance(x, tuple) and x and x[0] == 'S':
        return str(Sym(dict(x[1])))
    return str(x)


# JET: when True, monomials of degree >= 2 in Wilson-coefficient atoms are
# dropped (first-order jets).
class _Mode:
    jet = False


MODE = _Mode()


@lru_cache(maxsize=None)
def _wcdeg(m):
    return sum(e for a, e in m if A.info[a]['wc'])


@lru_cache(maxsize=2000000)
def _mulmono(m1, m2):
    """Multiply two monomials: returns (mono, factor, needs_expansion)."""
    if not m1:
        return m2, 1, False
    if not m2:
        return m1, 1, False
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    fac = 1
    expand = False
    out = []
    for a in sorted(d):
        e = d[a]
        if e == 0:
            continue
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        if a == I:
            e = e % 4
            if e >= 2:
                fac = -fac
                e -= 2
            if e == 0:
                continue
        else:
            k = A.info[a]['key']
            if k[0] == 'prime':
                fl = math.floor(e)
                if fl:
                    fac = fac * Fraction(k[1]) ** fl
                    e = e - fl
                    if e == 0:
                        continue
            elif k[0] == 'poly' and e >= 1:
                expand = True
        out.append((a, e))
    return tuple(out), fac, expand


def _expand_terms(terms):
    """Expand integer parts >= 1 of composite atoms."""
    res = {}
    work = list(terms.items())
    while work:
        m, c = work.pop()
        for idx, (a, e) in enumerate(m):
            info = A.info[a]
            if info['poly'] is not None and e >= 1:
                n = math.floor(e)
                rest = e - n
                base = m[:idx] + (((a, rest),) if rest else ()) + m[idx + 1:]
                cur = {base: c}
                for _ in range(n):
                    cur = _rawmul(cur, info['poly'].t)
                work.extend(cur.items())
                break
        else:
            v = res.get(m, 0) + c
            if v == 0:
                res.pop(m, None)
            else:
                res[m] = v
    return res


def _rawmul(t1, t2):
    out = {}
    jet = MODE.jet
    for m1, c1 in t1.items():
        d1 = _wcdeg(m1) if jet else 0
        for m2, c2 in t2.items():
            if jet and d1 + _wcdeg(m2) > 1:
                continue
            m, f, _ = _mulmono(m1, m2)
            c = c1 * c2
            if f != 1:
                c = c * f
            v = out.get(m)
            if v is None:
                out[m] = c
            else:
                v = v + c
                if v == 0:
                    del out[m]
                else:
                    out[m] = v
    return out


def _multerms(t1, t2):
    out = _rawmul(t1, t2)
    for m in out:
        for a, e in m:
            if e >= 1 and A.info[a]['poly'] is not None:
                return _expand_terms(out)
    return out


def _monoinv(m):
    fac = 1
    out = []
    for a, e in m:
        if a == I:
            fac = -fac
            out.append((a, 1))
        else:
            k = A.info[a]['key']
            if k[0] == 'prime':
                # p^-e = p^-1 * p^(1-e)
                ne = -e
                fl = math.floor(ne)
                fac = fac * Fraction(k[1]) ** fl
                ne = ne - fl
                if ne:
                    out.append((a, ne))
            else:
                out.append((a, -e))
    return tuple(out), fac


def _monoconj(m):
    fac = 1
    out = []
    ch = False
    for a, e in m:
        if a == I:
            fac = -1
            out.append((a, e))
        else:
            c = A.info[a]['conj']
            if c != a:
                ch = True
            out.append((c, e))
    if ch:
        out.sort()
    return tuple(out), fac


def _monoreal(m):
    for a, e in m:
        if a == I or not A.info[a]['real']:
            return False
    return True


def _monopos(m):
    """Known positive for all valuations."""
    pend = {}
    for a, e in m:
        if a == I:
            return False
        info = A.info[a]
        if info['positive']:
            continue
        if info['real'] and isinstance(e, int) and e % 2 == 0:
            continue
        if not info['real']:
            pend[a] = e
            continue
        return False
    for a, e in pend.items():          # |z|^2 = z zbar
        if pend.get(A.info[a]['conj']) != e:
            return False
    return True


ENGINE = None       # decision engine (set by vf.engine)


def decide(cond):
    if ENGINE is None:
        raise AnalysisError('undecided condition %r' % (cond,))
    return ENGINE.decide(cond)


class Sym:
    __slots__ = ('t', 'kind', 'npy', '_key')
    __array_ufunc__ = None

    def __init__(self, terms, kind='f', npy=False):
        self.t = terms
        self.kind = kind
        self.npy = npy
        self._key = None

    # -------------------------------------------------- constructors
    @staticmethod
    def const(x, kind='f', npy=False):
        if isinstance(x, float):
            if math.isnan(x):
                return Sym(NANT, kind, npy)
            if math.isinf(x):
                raise AnalysisError('infinite constant')
            x = Fraction(repr(x))
        x = Fraction(x)
        return Sym({(): x} if x else {}, kind, npy)

    @staticmethod
    def atom(name, real=True, positive=False, wc=False, npy=False, kind=None):
        i = A.get(('sym', name), real=real, positive=positive, wc=wc)
        if bool(A.info[i]['wc']) != bool(wc) or \
                bool(A.info[i]['real']) != bool(real):
            raise AnalysisError('atom name %s used twice' % name)
        return Sym({((i, 1),): F1}, kind or ('f' if real else 'c'), npy)

    @staticmethod
    def fn(name, *args, real=True, positive=False, npy=False):
        i = A.get(('fn', name) + tuple(keyof(a) for a in args), real=real,
                  positive=positive)
        return Sym({((i, 1),): F1}, 'f' if real else 'c', npy)

    # -------------------------------------------------- basic queries
    @property
    def isnan_(self):
        return self.t is NANT

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), F0)

    def key(self):
        if self._key is None:
            self._key = ('S', frozenset(self.t.items())) if not self.isnan_ \
                else ('S', 'nan')
        return self._key

    def __hash__(self):
        if self.is_const():
            return hash(self.const_value())
        return hash(self.key())

    def atoms(self):
        return {a for m in self.t for a, e in m}

    # -------------------------------------------------- arithmetic
    def _co(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, bool):
            return Sym({(): Fraction(int(o))} if o else {}, 'f')
        if isinstance(o, (int, Fraction)):
            return Sym({(): Fraction(o)} if o else {}, 'f')
        if isinstance(o, float):
            return Sym.const(o)
        if isinstance(o, complex):
            return mkcomplex(o)
        return None

    def _k(self, o):
        return ('c' if 'c' in (self.kind, o.kind) else 'f',
                self.npy or o.npy)

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        k, n = self._k(o)
        if self.isnan_ or o.isnan_:
            return Sym(NANT, k, n)
        if not o.t:
            return Sym(self.t, k, n)
        if not self.t:
            return Sym(o.t, k, n)
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return Sym(r, k, n)
    __radd__ = __add__

    def __neg__(self):
        if self.isnan_:
            return self
        return Sym({m: -c for m, c in self.t.items()}, self.kind, self.npy)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o2 = self._co(o)
        if o2 is None:
            return NotImplemented
        k, n = self._k(o2)
        if self.isnan_ or o2.isnan_:
            return Sym(NANT, k, n)
        if not self.t or not o2.t:
            return Sym({}, k, n)
        if len(o2.t) == 1 and () in o2.t:
            c2 = o2.t[()]
            if c2 == 1:
                return Sym(self.t, k, n)
            return Sym({m: c * c2 for m, c in self.t.items()}, k, n)
        return Sym(_multerms(self.t, o2.t), k, n)
    __rmul__ = __mul__

    def inv(self):
        if self.isnan_:
            return self
        t = self.t
        if not t:
            raise ZeroDivisionError('division by zero')
        if len(t) == 1:
            (m, c), = t.items()
            mi, f = _monoinv(m)
            return Sym({mi: F1 / c * f}, self.kind, self.npy)
        if MODE.jet:
            z, one = self.split_wc()
            if one.t and z.t:
                zi = z.inv()
                return zi - one * zi * zi
        if len(t) == 2:
            # monomial times Gaussian rational
            mono, p = self.factor()
            if set(p.t) == {(), ((I, 1),)}:
                a, b = p.t[()], p.t[((I, 1),)]
                n = a * a + b * b
                mi, f = _monoinv(mono)
                return Sym(_multerms({mi: F1 * f},
                                     {(): a / n, ((I, 1),): -b / n}),
                           self.kind, self.npy)
        return self.power(Fraction(-1))

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        k, n = self._k(o)
        if not o.isnan_ and not o.t:
            if n:
                return Sym(NANT, k, n)
            raise ZeroDivisionError('division by zero')
        r = self * o.inv()
        return Sym(r.t, k, n)

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o / self

    def split_wc(self):
        z, o = {}, {}
        for m, c in self.t.items():
            (o if _wcdeg(m) else z)[m] = c
        return Sym(z, self.kind, self.npy), Sym(o, self.kind, self.npy)

    def factor(self):
        """self = content * monomial * primitive; primitive multi-term with no
        common monomial factor and first coefficient 1."""
        t = self.t
        while True:
            common = None
            for m in t:
                d = dict(m)
                if common is None:
                    common = d
                else:
                    common = {a: min(common.get(a, 0), d.get(a, 0))
                              for a in set(common) | set(d)}
            common = {a: e for a, e in common.items() if e and a != I
                      and A.info[a]['key'][0] != 'prime'}
            if not common:
                mono = ()
                break
            mono = tuple(sorted(common.items()))
            mi, f = _monoinv(mono)
            t2 = _multerms(t, {mi: F1 * f})
            return mono, Sym(t2)
        return mono, Sym(t)

    def power(self, q):
        """self**q for rational q."""
        q = Fraction(q)
        if self.isnan_:
            return self
        if q == 0:
            return Sym({(): F1}, self.kind, self.npy)
        if not self.t:
            if q < 0:
                raise ZeroDivisionError('0 to a negative power')
            return Sym({}, self.kind, self.npy)
        if q.denominator == 1 and q > 0:
            n = int(q)
            r = None
            base = self
            while n:
                if n & 1:
                    r = base if r is None else r * base
                base = base * base if n > 1 else base
                n >>= 1
            return r
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if q.denominator == 1:
                return self.inv().power(-q)
            return self._monopow(m, c, q)
        if MODE.jet:
            z, one = self.split_wc()
            if one.t and z.t:
                return (z.power(q) + one * z.power(q - 1) * q)
        mono, prim = self.factor()
        if len(prim.t) == 1:
            (m, c), = prim.t.items()
            mm, f, _ = _mulmono(mono, m)
            return Sym({mm: c * f}, self.kind, self.npy).power(q)
        # leading coefficient
        lead = min(prim.t, key=_monokey)
        c = prim.t[lead]
        if q.denominator != 1 and c < 0:
            c = -c          # keep the sign inside: (-P)^(1/2) stays composite
        prim = Sym({m: v / c for m, v in prim.t.items()})
        a = A.get(('poly', frozenset(prim.t.items())), real=prim.is_real(),
                  poly=prim)
        e = int(q) if q.denominator == 1 else q
        r = Sym({((a, e),): F1}, self.kind, self.npy)
        if mono or c != 1:
            r = r * Sym({mono: c}).power(q)
        return Sym(r.t, self.kind, self.npy)

    def _monopow(self, m, c, q):
        """(c*m)**q for non-integer q."""
        good = c > 0
        out = []
        if good:
            for a, e in m:
                info = A.info[a]
                if a == I:
                    good = False
                    break
                if info['positive'] or info['poly'] is not None:
                    ne = e * q
                    out.append((a, int(ne) if Fraction(ne).denominator == 1
                                else Fraction(ne)))
                else:
                    # z * zbar = |z|^2 is allowed
                    d = dict(m)
                    if (not info['real']) and d.get(info['conj']) == e:
                        out.append((a, _n(e * q)))
                        continue
                    if info['real'] and isinstance(e, int) and e % 2 == 0:
                        # (x^2)^(1/2) = |x|
                        b = A.get(('fn', 'abs', atom_key(a)), positive=True)
                        out.append((b, _n(e * q)))
                        continue
                    good = False
                    break
        if not good:
            pos = tuple((a, e) for a, e in m if A.info[a]['positive'])
            if pos or (c > 0 and c != 1):
                k = c if c > 0 else F1
                rest = Sym({tuple(x for x in m if x not in pos): c / k},
                           self.kind, self.npy)
                r = Sym({pos: k}).power(q) * rest.power(q)
                return Sym(r.t, self.kind, self.npy)
            a = A.get(('fn', 'pow', self.key(), q), real=self.is_real(),
                      positive=False)
            return Sym({((a, 1),): F1}, self.kind, self.npy)
        r = Sym({(): F1}, self.kind, self.npy)
        if out:
            mm, f, _ = _mulmono(tuple(sorted(out)), ())
            r = r * Sym({tuple(sorted(out)): F1})
            r = Sym(_expand_terms(r.t))
        return Sym((r * _ratpow(c, q)).t, self.kind, self.npy)

    def __pow__(self, o):
        if isinstance(o, Sym):
            if o.is_const():
                o = o.const_value()
            else:
                return Sym.fn('pow', self, o, npy=self.npy or o.npy)
        if isinstance(o, float):
            o = Fraction(repr(o))
        if isinstance(o, (int, Fraction)):
            return self.power(o)
        return NotImplemented

    def __rpow__(self, o):
        o2 = self._co(o)
        if self.is_const():
            return o2.power(self.const_value())
        return Sym.fn('pow', o2, self, npy=self.npy)

    # -------------------------------------------------- complex structure
    def is_real(self):
        if self.kind == 'f':
            return True
        if self.isnan_:
            return True
        for m in self.t:
            if not _monoreal(m):
                break
        else:
            return True
        return self._conj_terms() == self.t

    def _conj_terms(self):
        r = {}
        for m, c in self.t.items():
            mm, f = _monoconj(m)
            r[mm] = r.get(mm, 0) + c * f
        return r

    def conjugate(self):
        if self.isnan_ or self.kind == 'f':
            return self
        return Sym(self._conj_terms(), self.kind, self.npy)

    @property
    def conj(self):
        if not self.npy:
            raise AttributeError("'%s' object has no attribute 'conj'"
                                 % ('complex' if self.kind == 'c' else 'float'))
        return self.conjugate

    @property
    def real(self):
        if self.isnan_ or self.kind == 'f':
            return Sym(self.t, 'f', self.npy)
        c = self.conjugate()
        r = (self + c) * Fraction(1, 2)
        return Sym(r.t, 'f', self.npy)

    @property
    def imag(self):
        if self.isnan_:
            return Sym(NANT, 'f', self.npy)
        if self.kind == 'f':
            return Sym({}, 'f', self.npy)
        c = self.conjugate()
        r = (self - c) * Sym({((I, 1),): Fraction(-1, 2)}, 'c')
        return Sym(r.t, 'f', self.npy)

    def __abs__(self):
        if self.isnan_:
            return Sym(NANT, 'f', self.npy)
        if self.is_const():
            return Sym({(): abs(self.const_value())} if self.t else {}, 'f',
                       self.npy)
        if MODE.jet:
            z, one = self.split_wc()
            if one.t and z.t and z.is_real():
                za = abs(z)
                sgn = za * z.inv()
                r = za + (sgn * one).real if one.kind == 'c' else za + sgn * one
                return Sym(r.t, 'f', self.npy)
        if self.is_real():
            s = self.sign()
            if s is not None:
                return Sym(self.t, 'f', self.npy) if s >= 0 else \
                    Sym((-self).t, 'f', self.npy)
            if len(self.t) == 1:
                (m, c), = self.t.items()
                r = Sym({(): abs(c)})
                for a, e in m:
                    info = A.info[a]
                    if _monopos(((a, e),)):
                        r = r * Sym({((a, e),): F1})
                    elif not info['real']:
                        r = r * Sym({((a, e),): F1}, 'c')
                    else:
                        b = A.get(('fn', 'abs', atom_key(a)), positive=True)
                        r = r * Sym({((b, e),): F1})
                return Sym(r.t, 'f', self.npy)
            # canonical sign
            lead = min(self.t, key=_monokey)
            p = self if self.t[lead] > 0 else -self
            return Sym.fn('abs', p, npy=self.npy, positive=True)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            mm, f = _monoconj(m)
            sq, f2, _ = _mulmono(m, mm)
            r = Sym({sq: c * c * f * f2}).power(Fraction(1, 2))
            return Sym(r.t, 'f', self.npy)
        sq = self * self.conjugate()
        r = Sym(sq.t, 'f').power(Fraction(1, 2))
        return Sym(r.t, 'f', self.npy)

    # -------------------------------------------------- order
    def sign(self):
        """+1/-1/0 if known for every valuation, else None."""
        if not self.t:
            return 0
        if self.isnan_:
            return None
        if self.is_const():
            return 1 if self.const_value() > 0 else -1
        s = set()
        for m, c in self.t.items():
            if not _monopos(m):
                return None
            s.add(c > 0)
        if len(s) == 1:
            return 1 if s.pop() else -1
        if all(not A.info[a]['key'][0] == 'sym' for a in self.atoms()):
            v = self.numeric()
            if v is not None:
                return 1 if v > 0 else -1
        return None

    def numeric(self):
        """Float value when only pi and primes occur."""
        tot = 0.0
        for m, c in self.t.items():
            v = float(c)
            for a, e in m:
                k = A.info[a]['key']
                if k[0] == 'pi':
                    v *= math.pi ** float(e)
                elif k[0] == 'prime':
                    v *= float(k[1]) ** float(e)
                else:
                    return None
            tot += v
        return tot

    def _cmp(self, o, op):
        o2 = self._co(o)
        if o2 is None:
            return NotImplemented
        if self.isnan_ or o2.isnan_:
            return False
        if 'c' in (self.kind, o2.kind) and not (self.npy or o2.npy):
            raise TypeError("'%s' not supported between instances of "
                            "'complex'" % op)
        d = self - o2
        s = d.sign()
        if s is None:
            return decide((op, d))
        return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0}[op]

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        o2 = self._co(o)
        if o2 is None:
            if getattr(o, '_vf_opaque', False):
                return NotImplemented
            return False
        if self.isnan_ or o2.isnan_:
            return False
        d = self - o2
        if not d.t:
            return True
        if d.is_const():
            return False
        if d.sign() is not None:
            return False
        if is_zero(d):
            return True
        if len(d.t) < 9:
            v = num(d)
            if v is not None and abs(v) > 1e-9:
                return False
        return not decide(('nz', d))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __bool__(self):
        if self.isnan_:
            return True
        return not (self == 0)

    def __float__(self):
        raise AnalysisError('host float() of a symbolic value')

    def __complex__(self):
        raise AnalysisError('host complex() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        raise AnalysisError('int() of a symbolic value')

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def is_integer(self):
        if self.is_const():
            return self.const_value().denominator == 1
        return decide(('is_integer', self))

    def __floordiv__(self, o):
        o2 = self._co(o)
        if self.is_const() and o2 is not None and o2.is_const():
            return Sym.const(self.const_value() // o2.const_value())
        raise AnalysisError('floor division of symbolic values')

    def __mod__(self, o):
        o2 = self._co(o)
        if self.is_const() and o2 is not None and o2.is_const():
            return Sym.const(self.const_value() % o2.const_value())
        raise AnalysisError('modulo of symbolic values')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy scalar attributes
    @property
    def shape(self):
        if not self.npy:
            raise AttributeError('shape')
        return ()

    @property
    def ndim(self):
        if not self.npy:
            raise AttributeError('ndim')
        return 0

    def item(self):
        if not self.npy:
            raise AttributeError('item')
        return Sym(self.t, self.kind, False)

    # -------------------------------------------------- printing
    def __str__(self):
        if self.isnan_:
            return 'nan'
        if not self.t:
            return '0'
        out = []
        for m in sorted(self.t, key=_monokey):
            c = self.t[m]
            s = []
            if c != 1 or not m:
                s.append(str(c))
            for a, e in m:
                s.append(atom_name(a) + ('' if e == 1 else '^%s' % e))
            out.append('*'.join(s))
        return ' + '.join(out)
    __repr__ = __str__

    def __format__(self, spec):
        from . import tokens
        return tokens.sym_token(self, spec)


NANT = {'nan': True}


class _NanTerms(dict):
    pass


NANT = _NanTerms({((-1, 1),): F1})


def _n(e):
    e = Fraction(e)
    return int(e) if e.denominator == 1 else e


def atom_key(a):
    return A.info[a]['key']


def _monokey(m):
    return tuple((repr(A.info[a]['key']) if A.info[a]['poly'] is None
                  else 'poly%d' % a, e) for a, e in m)


@lru_cache(maxsize=None)
def _factorint(n):
    f = {}
    p = 2
    while p * p <= n and p < 20000:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1        # prime (or an unfactored rest)
    return f


@lru_cache(maxsize=None)
def _ratpow(c, q):
    """Positive rational c to rational power q."""
    c = Fraction(c)
    r = Sym({(): F1})
    exps = {}
    for p, e in _factorint(c.numerator).items():
        exps[p] = exps.get(p, 0) + e * q
    for p, e in _factorint(c.denominator).items():
        exps[p] = exps.get(p, 0) - e * q
    for p, e in exps.items():
        fl = math.floor(e)
        r = r * Fraction(p) ** fl
        rest = e - fl
        if rest:
            a = A.get(('prime', p), positive=True)
            r = r * Sym({((a, rest),): F1})
    return r


def mkcomplex(z):
    re, im = Fraction(repr(z.real)), Fraction(repr(z.imag))
    t = {}
    if re:
        t[()] = re
    if im:
        t[((I, 1),)] = im
    return Sym(t, 'c')


def is_zero(s):
    """Decide whether s vanishes identically."""
    if s.isnan_:
        return False
    if not s.t:
        return True
    if len(s.t) == 1:
        return False
    if not any(A.info[a]['poly'] is not None for a in s.atoms()):
        return False
    prev = None
    cur = s
    for _ in range(6):
        mono, cur = cur.factor()
        if not cur.t:
            return True
        if len(cur.t) == 1:
            return False
        if prev is not None and cur.t == prev.t:
            return False
        prev = cur
    return False


def same(a, b):
    """Semantic equality of two abstract scalars (no decisions taken)."""
    a = lift(a)
    b = lift(b)
    if a.isnan_ or b.isnan_:
        return a.isnan_ and b.isnan_
    return is_zero(a - b)


def lift(x):
    if isinstance(x, Sym):
        return x
    r = Sym({})._co(x)
    if r is None:
        raise AnalysisError('not a scalar: %r' % (x,))
    return r


def keyof(x):
    """Canonical hashable key of an abstract value (used for uninterpreted
    function applications and memo tables)."""
    if isinstance(x, bool):
        return ('S', frozenset({((), Fraction(int(x)))}) if x else frozenset())
    if isinstance(x, Sym):
        return x.key()
    if isinstance(x, (int, float, Fraction, complex)):
        return lift(x).key()
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, (tuple, list)):
        return ('seq',) + tuple(keyof(y) for y in x)
    if isinstance(x, dict):
        return ('map',) + tuple((keyof(k), keyof(v)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return ('set', frozenset(keyof(y) for y in x))
    if hasattr(x, 'vf_key'):
        return x.vf_key()
    return ('id', id(x))


def sqrt(x):
    x = lift(x)
    return x.power(Fraction(1, 2))


def subs(s, mapping):
    """Substitute atoms (by index) with Sym values."""
    if s.isnan_:
        return s
    ats = s.atoms()
    if not any(a in mapping for a in ats):
        # look inside composites
        if not any(A.info[a]['poly'] is not None for a in ats):
            return s
    out = Sym({}, s.kind, s.npy)
    for m, c in s.t.items():
        r = Sym({(): c}, s.kind, s.npy)
        for a, e in m:
            if a in mapping:
                r = r * mapping[a].power(Fraction(e))
            elif A.info[a]['poly'] is not None:
                r = r * subs(A.info[a]['poly'], mapping).power(Fraction(e))
            else:
                r = r * Sym({((a, e),): F1})
        out = out + r
    return Sym(out.t, s.kind, s.npy)


def close(a, b, rtol, atol, symmetric=False):
    """|a - b| within a tolerance (symmetric: the rule of the math module,
    otherwise the one of numpy)"""
    a, b = lift(a), lift(b)
    rtol, atol = lift(rtol), lift(atol)
    if a.isnan_ or b.isnan_:
        return False
    d = a - b
    if not d.t:
        return True
    if symmetric and not atol.t and (not a.t or not b.t):
        return a == b
    va, vb = num(a), num(b)
    vr, vt = num(rtol), num(atol)
    if None not in (va, vb, vr, vt):
        e, vr, vt = abs(va - vb), vr.real, vt.real
        if symmetric:
            return e <= max(vr * max(abs(va), abs(vb)), vt)
        return e <= vt + vr * abs(vb)
    if not rtol.t and not atol.t:
        return a == b
    if is_zero(d):
        return True
    return decide(('close', d, vr, vt))


def num(x):
    """complex value of a constant, None for anything else"""
    re, im = x.real.numeric(), x.imag.numeric()
    return None if re is None or im is None else complex(re, im)
