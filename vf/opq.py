"""Opaque (uninterpreted) non-numeric values."""
from . import symb
from .symb import Sym, AnalysisError, keyof

_n = [0]


class Opq:
    """An unknown value.  `typ` is the python type it is known to have (or
    None), `key` its canonical term."""
    _vf_opaque = True

    def __init__(self, key, typ=None, **attrs):
        object.__setattr__(self, 'key', key)
        object.__setattr__(self, 'typ', typ)
        object.__setattr__(self, 'attrs', attrs)

    @staticmethod
    def fresh(name, typ=None):
        _n[0] += 1
        return Opq((name, _n[0]), typ)

    def vf_key(self):
        return ('opq', self.key)

    def __hash__(self):
        return hash(('opq', self.key))

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Opq) and o.key == self.key:
            return True
        if self.typ in (str, int, float) and not isinstance(o, (Opq, Sym)):
            if self.typ is str and not isinstance(o, str):
                return False
            if o is None:
                return False
        a, b = sorted([repr(self.vf_key()), repr(keyof(o))])
        return symb.decide(('eq', a, b))

    def __ne__(self, o):
        return not (self == o)

    def __bool__(self):
        return symb.decide(('truth', self.vf_key()))

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_vf'):
            raise AttributeError(name)
        at = object.__getattribute__(self, 'attrs')
        if name in at:
            return at[name]
        if self.typ is str and hasattr(str, name):
            return _StrMethod(self, name)
        raise AnalysisError('attribute %r of opaque value %s' % (name, self))

    def __setattr__(self, n, v):
        raise AnalysisError('setting attribute on opaque value')

    def __add__(self, o):
        if self.typ is str:
            if not isinstance(o, str) and getattr(o, 'typ', None) is not str:
                raise TypeError('can only concatenate str')
            return Opq(('concat', self.vf_key(), keyof(o)), str)
        return NotImplemented

    def __radd__(self, o):
        if self.typ is str:
            if not isinstance(o, str):
                raise TypeError('can only concatenate str')
            return Opq(('concat', keyof(o), self.vf_key()), str)
        return NotImplemented

    def __getitem__(self, i):
        if self.typ is str:
            return Opq(('item', self.vf_key(), keyof(i) if not
                        isinstance(i, slice) else str(i)), str)
        raise AnalysisError('indexing opaque value %s' % self)

    def __contains__(self, o):
        if self.typ is str:
            return symb.decide(('contains', self.vf_key(), keyof(o)))
        raise AnalysisError('membership in opaque value %s' % self)

    def __iter__(self):
        raise AnalysisError('iterating over opaque value %s' % self)

    def __len__(self):
        raise AnalysisError('len of opaque value %s' % self)

    def __lt__(self, o):
        return symb.decide(('oplt', self.vf_key(), keyof(o)))

    def __gt__(self, o):
        return symb.decide(('opgt', self.vf_key(), keyof(o)))

    def __repr__(self):
        return '\u27e8%s\u27e9' % (_short(self.key),)
    __str__ = __repr__

    def __format__(self, spec):
        from . import tokens
        return tokens.opq_token(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _short(k):
    if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], int):
        return '%s#%d' % k
    return str(k)


class _StrMethod:
    BOOL = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum',
            'islower', 'isupper', 'isidentifier', 'isspace', 'isnumeric'}
    STR = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title',
           'capitalize', 'casefold', 'format', 'join', 'swapcase', 'zfill'}

    def __init__(self, o, name):
        self.o, self.name = o, name

    def __call__(self, *a, **k):
        key = ('strm', self.name, self.o.vf_key()) + tuple(keyof(x) for x in a)
        if self.name in self.BOOL:
            return symb.decide(key)
        if self.name in self.STR:
            return Opq(key, str)
        if self.name in ('find', 'index', 'count', 'rfind'):
            return Sym.fn('strm_' + self.name, self.o, *a)
        if self.name in ('split', 'rsplit', 'partition', 'rpartition',
                         'splitlines'):
            return OpqList(key, str)
        if self.name == 'encode':
            return Opq(key, bytes)
        raise AnalysisError('str.%s of opaque string' % self.name)


class OpqList:
    """List of unknown length with opaque elements; index access only."""
    _vf_opaque = True

    def __init__(self, key, etyp):
        self.key, self.etyp = key, etyp

    def vf_key(self):
        return ('opql', self.key)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return OpqList(('slice', self.key, str(i)), self.etyp)
        return Opq(('elt', self.key, i), self.etyp)

    def __iter__(self):
        raise AnalysisError('iterating over opaque list')

    def __len__(self):
        raise AnalysisError('len of opaque list')

    def __bool__(self):
        return symb.decide(('truth', self.vf_key()))


def is_abstract(x, depth=3):
    if isinstance(x, (Sym, Opq, OpqList)):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(is_abstract(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(is_abstract(y, depth - 1) or is_abstract(k, 0)
                   for k, y in x.items())
    return False


class Inf(Opq):
    """an infinity; the abstract numbers are finite"""

    def __init__(self, sign=1):
        Opq.__init__(self, ('inf',) if sign > 0 else ('-inf',), float)
        object.__setattr__(self, 'sgn', sign)

    def _v(self, o):
        if isinstance(o, Inf):
            return o.sgn
        if isinstance(o, (Sym, int, float)):
            return 0
        return None

    def _cmp(self, o, f):
        v = self._v(o)
        return NotImplemented if v is None else f(self.sgn, v)

    __hash__ = Opq.__hash__

    def __eq__(self, o):
        return self._v(o) == self.sgn

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return True

    def __neg__(self):
        return Inf(-self.sgn)

    def __abs__(self):
        return Inf()
