"""Abstract model of the numpy operations: dense arrays of abstract scalars.
The host numpy is only used as index/stride machinery (object arrays)."""
import numpy as _np
import operator
import types
from fractions import Fraction
from . import symb
from .symb import Sym, AnalysisError, lift, NANT
from .opq import Inf

_add = _np.frompyfunc(operator.add, 2, 1)
_sub = _np.frompyfunc(operator.sub, 2, 1)
_mul = _np.frompyfunc(operator.mul, 2, 1)


def _box(x):
    b = _np.empty((), dtype=object)
    b[()] = x
    return b


def _cast(x, dt):
    """Cast an abstract scalar to array dtype."""
    if dt == 'o':
        return x
    if dt == 'b':
        return bool(x)
    if dt == 'i':
        if isinstance(x, Sym):
            if x.is_const():
                return int(x.const_value())
            raise AnalysisError('cast of symbolic value to integer array')
        return int(x)
    if isinstance(x, NDArr):
        if x.data.size == 1 and x.data.ndim == 0:
            x = x.data[()]
        elif x.data.size == 1:
            raise TypeError('only 0-dimensional arrays can be converted to '
                            'Python scalars')
        else:
            raise ValueError('setting an array element with a sequence.')
    if isinstance(x, str):
        x = Sym.const(Fraction(x))
    if x is None:
        if dt in 'fc':
            return Sym(NANT, dt)
    if isinstance(x, (list, tuple, dict)):
        raise TypeError('float() argument must be a string or a real number')
    s = lift(x)
    if dt == 'f':
        if s.kind == 'c':
            if s.npy:
                return Sym(s.real.t, 'f')      # ComplexWarning: discards imag
            raise TypeError("float() argument must be a string or a real "
                            "number, not 'complex'")
        return Sym(s.t, 'f')
    return Sym(s.t, 'c')


def _dtof(x):
    if isinstance(x, NDArr):
        return x.dt
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, Sym):
        return x.kind
    if isinstance(x, (float, Fraction)):
        return 'f'
    if isinstance(x, complex):
        return 'c'
    return 'o'


_ORD = 'bifco'


def _join(*dts):
    return max(dts, key=_ORD.index)


class DType:
    def __init__(self, c):
        self.c = c

    @property
    def kind(self):
        return {'f': 'f', 'c': 'c', 'i': 'i', 'b': 'b', 'o': 'O'}[self.c]

    @property
    def name(self):
        return {'f': 'float64', 'c': 'complex128', 'i': 'int64', 'b': 'bool',
                'o': 'object'}[self.c]

    def __eq__(self, o):
        try:
            return dtchar(o) == self.c
        except AnalysisError:
            return False

    def __hash__(self):
        return hash(self.c)

    def __str__(self):
        return self.name


def dtchar(d):
    if d is None:
        return 'f'
    if isinstance(d, DType):
        return d.c
    if d is float or d in ('float', 'float64', 'd', 'f', 'f8'):
        return 'f'
    if d is complex or d in ('complex', 'complex128', 'D', 'c16'):
        return 'c'
    if d is int or d in ('int', 'int64', 'i', 'i8'):
        return 'i'
    if d is bool or d in ('bool',):
        return 'b'
    if d is object or d in ('object', 'O'):
        return 'o'
    if isinstance(d, type) and issubclass(d, NpComplex):
        return 'c'
    if isinstance(d, type) and issubclass(d, NpFloat):
        return 'f'
    if isinstance(d, type) and issubclass(d, NpInt):
        return 'i'
    if isinstance(d, type) and issubclass(d, NpBool):
        return 'b'
    raise AnalysisError('numpy dtype %r' % (d,))


class NpGeneric:
    pass


class NpNumber(NpGeneric):
    pass


class NpInexact(NpNumber):
    pass


class NpFloating(NpInexact):
    pass


class NpComplexfloating(NpInexact):
    pass


class NpFloat(NpFloating):
    pass


class NpComplex(NpComplexfloating):
    pass


class NpInteger(NpNumber):
    pass


class NpInt(NpInteger):
    pass


class NpBool(NpGeneric):
    pass


def _elt(x, dt):
    """Element read out of an array -> numpy scalar."""
    if dt in 'fc' and isinstance(x, Sym):
        if x.npy and x.kind == dt:
            return x
        return Sym(x.t, dt, True)
    if dt in 'fc' and isinstance(x, int):
        return Sym(lift(x).t, dt, True)
    return x


def _ix(i):
    if isinstance(i, tuple):
        return tuple(_ix(j) for j in i)
    if isinstance(i, NDArr):
        if i.dt == 'b':
            return i.data.astype(bool)
        if i.dt == 'i':
            return i.data.astype(int)
        if i.data.size == 0:
            return i.data.astype(int)
        raise IndexError('arrays used as indices must be of integer (or '
                         'boolean) type')
    if isinstance(i, Sym):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), '
                         'numpy.newaxis (`None`) and integer or boolean '
                         'arrays are valid indices')
    if isinstance(i, list):
        return [_ix(j) for j in i]
    return i


class NDArr:
    _vf_array = True
    __array_ufunc__ = None

    def __init__(self, data, dt, base=None, part=None):
        self._data = data
        self.dt = dt
        self._base = base      # for .real / .imag views of complex arrays
        self._part = part

    @property
    def data(self):
        if self._part is None:
            return self._data
        f = operator.attrgetter(self._part)
        out = _np.empty(self._data.shape, dtype=object)
        for i in _np.ndindex(*self._data.shape):
            out[i] = f(lift(self._data[i]))
        return out

    def vf_key(self):
        d = self.data
        return ('arr', d.shape, self.dt) + tuple(
            symb.keyof(x) for x in d.ravel().tolist())

    @staticmethod
    def full(shape, val, dt):
        if isinstance(shape, (Sym,)):
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        a = _np.empty(shape, dtype=object)
        v = _cast(val, dt)
        for i in _np.ndindex(*a.shape):
            a[i] = v
        return NDArr(a, dt)

    # ---- attributes
    @property
    def shape(self):
        return self._data.shape

    @property
    def ndim(self):
        return self._data.ndim

    @property
    def size(self):
        return self._data.size

    @property
    def dtype(self):
        return DType(self.dt)

    @property
    def T(self):
        return NDArr(self._data.T, self.dt, None, self._part)

    @property
    def flat(self):
        return iter([_elt(x, self.dt) for x in self.data.ravel().tolist()])

    @property
    def real(self):
        if self._part or self.dt != 'c':
            return self
        return NDArr(self._data, 'f', self, 'real')

    @real.setter
    def real(self, v):
        self.real[...] = v

    @property
    def imag(self):
        if self._part or self.dt != 'c':
            return NDArr.full(self.shape, 0, 'f')
        return NDArr(self._data, 'f', self, 'imag')

    @imag.setter
    def imag(self, v):
        self.imag[...] = v

    # ---- indexing
    def __getitem__(self, i):
        r = self._data[_ix(i)]
        if isinstance(r, _np.ndarray):
            return NDArr(r, self.dt, None, self._part)
        if self._part:
            return _elt(getattr(lift(r), self._part), 'f')
        return _elt(r, self.dt)

    def __setitem__(self, i, v):
        ix = _ix(i)
        dst = self._data[ix]
        if isinstance(v, (list, tuple)):
            v = array(v)
        if isinstance(dst, _np.ndarray):
            if isinstance(v, NDArr):
                src = v.data
                if self.dt == 'f' and v.dt == 'c' or self._part and \
                        v.dt == 'c':
                    src = v.real.data       # ComplexWarning: imag discarded
            else:
                src = _box(v)
            src = _np.broadcast_to(src, dst.shape)
            new = _np.empty(dst.shape, dtype=object)
            for k in _np.ndindex(*dst.shape):
                new[k] = self._put(dst[k], src[k])
            self._data[ix] = new
        else:
            self._data[ix] = self._put(dst, v)

    def _put(self, old, v):
        if self._part is None:
            return _cast(v, self.dt)
        v = _cast(v, 'f')
        old = lift(old)
        if self._part == 'real':
            return Sym((Sym(v.t, 'c') + _I * old.imag).t, 'c')
        return Sym((Sym(old.real.t, 'c') + _I * v).t, 'c')

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for k in range(self.shape[0]):
            yield self[k]

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __contains__(self, x):
        return any(bool(y == x) for y in self.flat)

    def __bool__(self):
        if self.size == 1:
            return bool(self.data.ravel()[0])
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous.')

    def __int__(self):
        if self.size == 1 and self.ndim == 0:
            return int(self.data[()])
        raise TypeError('only 0-dimensional arrays can be converted to '
                        'Python scalars')

    __hash__ = None

    # ---- arithmetic
    def _bin(self, o, op, dtf=None, rev=False):
        if isinstance(o, (list, tuple)):
            o = array(o)
        if isinstance(o, NDArr):
            od, odt = o.data, o.dt
        elif isinstance(o, (Sym, int, float, complex, Fraction)):
            od, odt = _box(o), _dtof(o)
        else:
            return NotImplemented
        a, b = self.data, od
        if rev:
            a, b = b, a
        r = _np.frompyfunc(op, 2, 1)(a, b)
        dt = _join(self.dt, odt)
        if dtf:
            dt = dtf(dt)
        return _wrap(r, dt)

    def __add__(self, o):
        return self._bin(o, operator.add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, operator.sub)

    def __rsub__(self, o):
        return self._bin(o, operator.sub, rev=True)

    def __mul__(self, o):
        return self._bin(o, operator.mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, _div, _fl)

    def __rtruediv__(self, o):
        return self._bin(o, _div, _fl, rev=True)

    def __pow__(self, o):
        return self._bin(o, _pow)

    def __neg__(self):
        return _map(self, operator.neg)

    def __pos__(self):
        return self

    def __abs__(self):
        return _map(self, abs, lambda d: 'f' if d == 'c' else d)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def _inpl(self, o, op):
        r = op(self, o)
        if r is NotImplemented:
            return r
        if _ORD.index(r.dt if isinstance(r, NDArr) else _dtof(r)) > \
                _ORD.index(self.dt):
            raise TypeError('Cannot cast ufunc output')
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inpl(o, operator.add)

    def __isub__(self, o):
        return self._inpl(o, operator.sub)

    def __imul__(self, o):
        return self._inpl(o, operator.mul)

    def __itruediv__(self, o):
        return self._inpl(o, operator.truediv)

    def __eq__(self, o):
        if o is None:
            return False
        return self._bin(o, lambda a, b: bool(a == b), lambda d: 'b')

    def __ne__(self, o):
        if o is None:
            return True
        return self._bin(o, lambda a, b: bool(a != b), lambda d: 'b')

    def __lt__(self, o):
        return self._bin(o, lambda a, b: bool(a < b), lambda d: 'b')

    def __gt__(self, o):
        return self._bin(o, lambda a, b: bool(a > b), lambda d: 'b')

    def __le__(self, o):
        return self._bin(o, lambda a, b: bool(a <= b), lambda d: 'b')

    def __ge__(self, o):
        return self._bin(o, lambda a, b: bool(a >= b), lambda d: 'b')

    def __invert__(self):
        return _map(self, lambda x: not x)

    def __and__(self, o):
        return self._bin(o, lambda a, b: a and b)

    def __or__(self, o):
        return self._bin(o, lambda a, b: a or b)

    # ---- methods
    def conj(self):
        return _map(self, lambda x: x.conjugate())
    conjugate = conj

    def copy(self, order=None):
        return NDArr(self.data.copy(), self.dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True):
        dt = dtchar(dt)
        if self.dt == 'c' and dt == 'f':
            return NDArr(self.real.data, 'f')
        return _map(self, lambda x: _cast(x, dt), lambda d: dt)

    def reshape(self, *s, order='C'):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return NDArr(self._data.reshape(s, order=order), self.dt, None,
                     self._part)

    def ravel(self):
        return NDArr(self._data.ravel(), self.dt, None, self._part)

    def flatten(self):
        return NDArr(self.data.flatten(), self.dt)

    def transpose(self, *ax):
        if len(ax) == 1 and (ax[0] is None or isinstance(ax[0], (tuple,
                                                                 list))):
            ax = ax[0]
        return NDArr(self._data.transpose(ax) if ax else self._data.transpose(),
                     self.dt, None, self._part)

    def swapaxes(self, a, b):
        return NDArr(self._data.swapaxes(a, b), self.dt, None, self._part)

    def squeeze(self, axis=None):
        return NDArr(self._data.squeeze(axis), self.dt, None, self._part)

    def tolist(self):
        def f(x):
            if isinstance(x, list):
                return [f(y) for y in x]
            return Sym(x.t, self.dt, False) if isinstance(x, Sym) else x
        return f(self.data.tolist())

    def item(self, *a):
        if a:
            return _py(self[a if len(a) > 1 else a[0]])
        if self.size != 1:
            raise ValueError('can only convert an array of size 1')
        return _py(_elt(self.data.ravel()[0], self.dt))

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None):
        return npsum(self, axis)

    def trace(self):
        return npsum(diag(self))

    def diagonal(self):
        return diag(self)

    def dot(self, o):
        return dot(self, o)

    def all(self, axis=None):
        return all(bool(x) for x in self.data.ravel().tolist())

    def any(self, axis=None):
        return any(bool(x) for x in self.data.ravel().tolist())

    def nonzero(self):
        m = _np.array([bool(x != 0) for x in self.data.ravel().tolist()]
                      ).reshape(self.shape)
        return tuple(_ints(x) for x in m.nonzero())

    def max(self, axis=None):
        return _elt(max(self.data.ravel().tolist()), self.dt)

    def min(self, axis=None):
        return _elt(min(self.data.ravel().tolist()), self.dt)

    def prod(self):
        r = 1
        for x in self.data.ravel().tolist():
            r = r * x
        return _elt(r, self.dt)

    def __repr__(self):
        return 'array%s' % (self.data.tolist(),)

    def __format__(self, spec):
        return repr(self)


_I = Sym({((symb.I, 1),): Fraction(1)}, 'c')


def _fl(d):
    return 'f' if d in 'bi' else d


def _div(a, b):
    if not isinstance(a, Sym):
        a = lift(a)
    a = Sym(a.t, a.kind, True)
    return a / b


def _pow(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if b < 0:
            raise ValueError('Integers to negative integer powers are not '
                             'allowed.')
        return a ** b
    return lift(a) ** b


def _py(x):
    return Sym(x.t, x.kind, False) if isinstance(x, Sym) else x


def _ints(a):
    return NDArr(_np.array(a, dtype=object), 'i')


def _wrap(r, dt):
    if not isinstance(r, _np.ndarray):
        return _elt(r, dt)
    if r.shape == ():
        return _elt(r[()], dt)
    if dt in 'fc':
        for i in _np.ndindex(*r.shape):
            x = r[i]
            if not isinstance(x, Sym) or x.kind != dt:
                r[i] = Sym(lift(x).t, dt)
    return NDArr(r, dt)


def _map(a, f, dtf=None):
    a = asarray(a)
    d = a.data
    out = _np.empty(d.shape, dtype=object)
    for i in _np.ndindex(*d.shape):
        out[i] = f(d[i])
    dt = dtf(a.dt) if dtf else a.dt
    return _wrap(out, dt)


def asarray(x, dtype=None):
    if isinstance(x, NDArr):
        if dtype is not None and dtchar(dtype) != x.dt:
            return x.astype(dtype)
        return x
    return array(x, dtype)


def _shape(x):
    if isinstance(x, NDArr):
        return x.shape
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if not x:
            return (0,)
        s = {_shape(y) for y in x}
        if len(s) > 1:
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
        return (len(x),) + s.pop()
    return ()


def array(x, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(x, NDArr):
        r = NDArr(x.data.copy() if copy else x._data, x.dt) if copy or x._part \
            else x
        return r.astype(dtype) if dtype is not None and \
            dtchar(dtype) != r.dt else r
    if isinstance(x, (types.GeneratorType, set, dict)) or type(x).__name__ in (
            'dict_values', 'dict_keys', 'map'):
        raise AnalysisError('np.array of %s' % type(x).__name__)
    shape = _shape(x)
    data = _np.empty(shape, dtype=object)
    leaves = []

    def walk(y, idx):
        if isinstance(y, NDArr):
            for i in _np.ndindex(*y.shape):
                leaves.append((idx + i, y[i]))
        elif isinstance(y, (list, tuple, range)):
            for k, z in enumerate(y):
                walk(z, idx + (k,))
        else:
            leaves.append((idx, y))
    walk(x, ())
    if dtype is not None:
        dt = dtchar(dtype)
    elif leaves:
        dt = _join(*[_dtof(v) for i, v in leaves])
    else:
        dt = 'f'
    for i, v in leaves:
        data[i] = _cast(v, dt)
    return NDArr(data, dt)


def zeros(shape, dtype=None, order=None):
    return NDArr.full(shape, 0, dtchar(dtype))


def ones(shape, dtype=None, order=None):
    return NDArr.full(shape, 1, dtchar(dtype))


def empty(shape, dtype=None, order=None):
    # uninitialised memory: every cell is an undefined value
    dt = dtchar(dtype)
    if dt in 'fc':
        return NDArr.full(shape, Sym(NANT, dt), dt)
    return NDArr.full(shape, 0, dt)


def full(shape, fill_value, dtype=None):
    dt = dtchar(dtype) if dtype is not None else _dtof(fill_value)
    return NDArr.full(shape, fill_value, dt)


def _like(f):
    def g(a, dtype=None, **k):
        a = asarray(a)
        return f(a.shape, dtype if dtype is not None else DType(a.dt))
    return g


def full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a.shape, v, dtype if dtype is not None else DType(a.dt))


def eye(n, m=None, k=0, dtype=None):
    r = zeros((n, m or n), dtype)
    for i in range(n):
        if 0 <= i + k < (m or n):
            r[i, i + k] = 1
    return r


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough '
                         'dimensions')
    if a.ndim == 2 and b.ndim == 2:
        return _contract(a, b, 'ij', 'jk', 'ik')
    if a.ndim == 1 and b.ndim == 2:
        return _contract(a, b, 'j', 'jk', 'k')
    if a.ndim == 2 and b.ndim == 1:
        return _contract(a, b, 'ij', 'j', 'i')
    if a.ndim == 1 and b.ndim == 1:
        return _contract(a, b, 'j', 'j', '')
    la = 'abcdefgh'[:a.ndim - 2]
    if a.ndim == b.ndim:
        return _contract(a, b, la + 'ij', la + 'jk', la + 'ik')
    if b.ndim == 2:
        return _contract(a, b, la + 'ij', 'jk', la + 'ik')
    if a.ndim == 2:
        la = 'abcdefgh'[:b.ndim - 2]
        return _contract(a, b, 'ij', la + 'jk', la + 'ik')
    raise AnalysisError('matmul broadcasting')


def dot(a, b):
    if not isinstance(a, (NDArr, list, tuple)) or \
            not isinstance(b, (NDArr, list, tuple)):
        return a * b
    a, b = asarray(a), asarray(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(a, b)
    la = 'abcdefgh'[:a.ndim - 1]
    if b.ndim == 1:
        return _contract(a, b, la + 'z', 'z', la)
    lb = 'mnopqrst'[:b.ndim - 1]
    return _contract(a, b, la + 'z', lb[:-1] + 'z' + lb[-1], la + lb)


def _contract(a, b, sa, sb, so):
    dims = {}
    for s, x in ((sa, a), (sb, b)):
        for c, n in zip(s, x.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError('operands could not be broadcast together / '
                                 'shapes not aligned')
    dt = _join(a.dt, b.dt)
    da, db = a.data, b.data
    # index the non-zero entries of b by the shared indices
    shared = [c for c in dict.fromkeys(sa) if c in sb]
    table = {}
    for i in _np.ndindex(*db.shape):
        x = db[i]
        if isinstance(x, Sym) and not x.t or not isinstance(x, Sym) and x == 0:
            continue
        env = {}
        ok = True
        for c, k in zip(sb, i):
            if env.setdefault(c, k) != k:
                ok = False
                break
        if ok:
            table.setdefault(tuple(env[c] for c in shared), []).append((env, x))
    oshape = tuple(dims[c] for c in so)
    acc = {}
    for i in _np.ndindex(*da.shape):
        x = da[i]
        if isinstance(x, Sym) and not x.t or not isinstance(x, Sym) and x == 0:
            continue
        env = {}
        ok = True
        for c, k in zip(sa, i):
            if env.setdefault(c, k) != k:
                ok = False
                break
        if not ok:
            continue
        for env2, y in table.get(tuple(env[c] for c in shared), ()):
            o = tuple(env[c] if c in env else env2[c] for c in so)
            acc.setdefault(o, []).append(x * y)
    out = _np.empty(oshape, dtype=object)
    zero = _cast(0, dt) if dt in 'fc' else 0
    for i in _np.ndindex(*oshape):
        l = acc.get(i)
        out[i] = _sumlist(l) if l else zero
    return _wrap(out, dt)


def _sumlist(l):
    if len(l) == 1:
        return l[0]
    if len(l) == 2:
        return l[0] + l[1]
    if not all(isinstance(x, Sym) for x in l) or any(x.isnan_ for x in l):
        r = l[0]
        for x in l[1:]:
            r = r + x
        return r
    t = {}
    kind = 'f'
    for x in l:
        if x.kind == 'c':
            kind = 'c'
        for m, c in x.t.items():
            t[m] = t.get(m, 0) + c
    return Sym({m: c for m, c in t.items() if c}, kind)


def einsum(spec, *ops, optimize=None, out=None, **kw):
    if not isinstance(spec, str):
        # einsum(op0, sublist0, op1, sublist1, ..., [sublistout])
        a = (spec,) + ops
        n = len(a) // 2
        if any(not isinstance(x, (list, tuple)) or any(
                not isinstance(y, int) for y in x) for x in a[1::2]) or \
                len(a) % 2 and not isinstance(a[-1], (list, tuple)):
            raise TypeError('einsum: invalid operands or sublists')
        let = lambda l: ''.join('abcdefghijklmnopqrstuvwxyz'[i] for i in l)
        spec = ','.join(let(l) for l in a[1:2 * n:2])
        if len(a) % 2:
            spec += '->' + let(a[-1])
        ops = a[0:2 * n:2]
    spec = spec.replace(' ', '')
    ops = [asarray(o) for o in ops]
    if '...' in spec:
        subs = spec.split('->')[0].split(',')
        if len(subs) != len(ops):
            raise AnalysisError('einsum ellipsis')
        free = [c for c in 'ZYXWVUTSR' if c not in spec]
        n = max([o.ndim - len(s) + 3 for s, o in zip(subs, ops)
                 if '...' in s])
        l = ''.join(free[:n])[::-1]
        subs = [s.replace('...', l[n - (o.ndim - len(s) + 3):])
                for s, o in zip(subs, ops)]
        lhs = ','.join(subs)
        if '->' in spec:
            spec = lhs + '->' + spec.split('->')[1].replace('...', l)
        else:
            t = lhs.replace(',', '')
            spec = lhs + '->' + l + ''.join(
                sorted(c for c in set(t) if t.count(c) == 1 and c not in l))
    if '->' in spec:
        lhs, so = spec.split('->')
    else:
        lhs = spec
        cnt = {}
        for c in lhs.replace(',', ''):
            cnt[c] = cnt.get(c, 0) + 1
        so = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    subs = lhs.split(',')
    if len(subs) != len(ops):
        raise ValueError('more operands provided to einstein sum function '
                         'than specified in the subscripts string')
    for s, o in zip(subs, ops):
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string does not match '
                             'operand dimension')
    if len(so) != len(set(so)) or any(c not in lhs for c in so):
        raise ValueError('einstein sum output subscripts invalid')
    items = list(zip(subs, ops))
    if len(items) == 1:
        s, o = items[0]
        if sorted(s) == sorted(so) and len(set(s)) == len(s):
            return NDArr(o._data.transpose([s.index(c) for c in so]), o.dt,
                         None, o._part) if so else o
        return _contract(o, ones(()), s, '', so)
    while len(items) > 1:
        # contract the largest operand with a neighbour sharing an index
        big = max(range(len(items)), key=lambda k: (len(items[k][0]), k))
        sb, ob = items.pop(big)
        j = next((k for k in range(len(items))
                  if set(items[k][0]) & set(sb)), 0)
        sa, oa = items.pop(j)
        rest = set(so)
        for s, o in items:
            rest |= set(s)
        if items:
            out_s = ''.join(c for c in dict.fromkeys(sa + sb) if c in rest)
        else:
            out_s = so
        r = _contract(oa, ob, sa, sb, out_s)
        items.append((out_s, r if isinstance(r, NDArr) else asarray(r)))
    r = items[0][1]
    if isinstance(r, NDArr) and r.ndim == 0:
        return _elt(r.data[()], r.dt)
    return r


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, int):
        ax = list(range(a.ndim - axes, a.ndim))
        bx = list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax = [x % a.ndim for x in ax]
    bx = [x % b.ndim for x in bx]
    let = iter('abcdefghijklmnopqrstuvwxyz')
    sa = [next(let) for _ in range(a.ndim)]
    sb = [next(let) for _ in range(b.ndim)]
    for x, y in zip(ax, bx):
        sb[y] = sa[x]
    so = [c for k, c in enumerate(sa) if k not in ax] + \
         [c for k, c in enumerate(sb) if k not in bx]
    return _contract(a, b, ''.join(sa), ''.join(sb), ''.join(so))


def outer(a, b):
    return _contract(asarray(a).ravel(), asarray(b).ravel(), 'i', 'j', 'ij')


def multi_dot(l):
    r = l[0]
    for x in l[1:]:
        r = dot(r, x)
    return r


def npsum(a, axis=None, dtype=None, keepdims=False):
    if keepdims:
        raise AnalysisError('np.sum with keepdims')
    if isinstance(a, types.GeneratorType):
        a = list(a)
    a = asarray(a)
    if axis is None:
        l = a.data.ravel().tolist()
        if not l:
            return 0
        return _elt(_sumlist(l), a.dt)
    axes = (axis,) if isinstance(axis, int) else tuple(axis)
    let = 'abcdefghij'[:a.ndim]
    axes = [x % a.ndim for x in axes]
    return _contract(a, ones(()), let, '',
                     ''.join(c for k, c in enumerate(let) if k not in axes))


def diag(a, k=0):
    a = asarray(a)
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        r = NDArr.full((n, n), 0, a.dt)
        for i in range(a.shape[0]):
            r[(i, i + k) if k >= 0 else (i - k, i)] = a[i]
        return r
    return NDArr(_np.diagonal(a.data, k).copy(), a.dt)


def _conj(x):
    if isinstance(x, (NDArr, list, tuple)):
        return asarray(x).conj()
    s = lift(x)
    return Sym(s.t, s.kind, True).conjugate()


def _npre(part):
    def f(x):
        if isinstance(x, (NDArr, list, tuple)):
            return getattr(asarray(x), part)
        if isinstance(x, int):
            return x if part == 'real' else 0
        return getattr(Sym(x.t, x.kind, True), part)
    return f


def angle(z, deg=False):
    f = angle1
    if deg:
        f = lambda x: angle1(x) * 180 / Sym({((symb.PI, 1),): Fraction(1)},
                                            'f')
    if isinstance(z, (NDArr, list, tuple)):
        return _map(z, f, lambda d: 'f')
    return f(z)


def arctan2(y, x):
    if isinstance(x, NDArr) or isinstance(y, NDArr):
        raise AnalysisError('np.arctan2 of arrays')
    return angle1(lift(x) + Sym({((symb.I, 1),): Fraction(1)}, 'c') * lift(y))


def angle1(x):
    """arg(x) for a scalar; 0 at 0."""
    s = lift(x)
    if s.isnan_:
        return Sym(NANT, 'f', True)
    if not s.t:
        return Sym({}, 'f', True)
    if s.is_real():
        sg = s.sign()
        if sg == 1 or sg == 0:
            return Sym({}, 'f', True)
        if sg == -1:
            r = Sym.atom('__pi')
            return Sym({((symb.PI, 1),): Fraction(1)}, 'f', True)
    # strip positive factors
    if len(s.t) == 1:
        (m, c), = s.t.items()
        keep = tuple((a, e) for a, e in m
                     if not symb.A.info[a]['positive'])
        s = Sym({keep: Fraction(1 if c > 0 else -1)}, s.kind)
    r = Sym.fn('arg', s)
    return Sym(r.t, 'f', True)


def _ufunc1(name, f, dtf=None):
    def g(x, *a, **k):
        if isinstance(x, (NDArr, list, tuple)):
            return _map(x, lambda v: f(lift(v)), dtf)
        r = f(lift(x))
        return Sym(r.t, r.kind, True) if isinstance(r, Sym) else r
    g.__name__ = name
    return g


def npsqrt(s):
    r = symb.sqrt(s)
    return r


def indices(dims):
    return _ints(_np.indices(dims))


def ndindex(*s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    return iter([tuple(int(x) for x in i) for i in _np.ndindex(*s)])


def ndenumerate(a):
    a = asarray(a)
    return iter([(i, a[i]) for i in ndindex(a.shape)])


def isnan(x):
    def f(v):
        if isinstance(v, Sym):
            return v.isnan_
        return False
    if isinstance(x, (NDArr, list, tuple)):
        return _map(x, f, lambda d: 'b')
    return f(x)


def where(c, a=None, b=None):
    c = asarray(c)
    if a is None:
        m = _np.array([bool(x) for x in c.data.ravel().tolist()]
                      ).reshape(c.shape)
        return tuple(_ints(x) for x in m.nonzero())
    a, b = asarray(a), asarray(b)
    shape = _np.broadcast_shapes(c.shape, a.shape, b.shape)
    cd = _np.broadcast_to(c.data, shape)
    ad = _np.broadcast_to(a.data, shape)
    bd = _np.broadcast_to(b.data, shape)
    out = _np.empty(shape, dtype=object)
    for i in _np.ndindex(*shape):
        out[i] = ad[i] if cd[i] else bd[i]
    return _wrap(out, _join(a.dt, b.dt))


def _stack(kind):
    def f(seq, axis=0, **k):
        seq = [asarray(x) for x in seq]
        d = [x.data for x in seq]
        dt = _join(*[x.dt for x in seq])
        if kind == 'concatenate':
            r = _np.concatenate(d, axis=axis)
        elif kind == 'stack':
            r = _np.stack(d, axis=axis)
        else:
            r = getattr(_np, kind)(d)
        return _wrap(r, dt)
    return f


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.data.ravel().tolist(),
                                            b.data.ravel().tolist()))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = lift(x), lift(y)
        if x.isnan_ and y.isnan_:
            return bool(equal_nan)
        return bool(symb.close(x, y, rtol, atol))
    r = asarray(a)._bin(asarray(b), f, lambda d: 'b')
    return r if isinstance(r, NDArr) and r.ndim else bool(r)


def real_if_close(a, tol=100):
    a = asarray(a)
    if a.dt != 'c':
        return a
    t = lift(tol)
    if (t - 1).sign() == 1:
        t = t * lift(_np.finfo(float).eps.item())
    for x in a.data.ravel().tolist():
        if not bool(abs(lift(x).imag) < t):
            return a
    return a.real


def finfo(t=float):
    if t not in (float, complex, NpFloat, NpComplex):
        raise AnalysisError('np.finfo(%r)' % (t,))
    i = _np.finfo(float)
    return types.SimpleNamespace(**{k: lift(getattr(i, k).item()) for k in (
        'eps', 'tiny', 'max', 'min', 'resolution')})


def norm(a, ord=None, axis=None):
    if ord is not None or axis is not None:
        raise AnalysisError('np.linalg.norm with an order or axis')
    a = asarray(a).ravel()
    r = lift(0)
    for x in a.data.tolist():
        r = r + abs(lift(x)) ** 2
    return Sym(symb.sqrt(Sym(r.t, 'f')).t, 'f', True)


def kron(a, b):
    a, b = asarray(a), asarray(b)
    n = max(a.ndim, b.ndim)
    a = a.reshape((1,) * (n - a.ndim) + tuple(a.shape))
    b = b.reshape((1,) * (n - b.ndim) + tuple(b.shape))
    ia = sum(((x, 1) for x in a.shape), ())
    ib = sum(((1, x) for x in b.shape), ())
    return (a.reshape(ia) * b.reshape(ib)).reshape(
        tuple(x * y for x, y in zip(a.shape, b.shape)))


def nan_to_num(x, copy=True, nan=0, **k):
    def f(v):
        return lift(nan) if isinstance(v, Sym) and v.isnan_ else v
    if isinstance(x, NDArr):
        r = _map(x, f)
        if not copy:
            x[...] = r
            return x
        return r
    return f(x)


def fill_diagonal(a, v):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v


def _tri(keep):
    def f(m, k=0):
        m = asarray(m)
        r = zeros(m.shape, DType(m.dt))
        if m.ndim < 2:
            raise AnalysisError('np.triu of a vector')
        for i in _np.ndindex(*m.shape):
            if keep(i[-2], i[-1], k):
                r[i] = m[i]
        return r
    return f


def _triind(keep):
    def f(n, k=0, m=None):
        l = [(i, j) for i in range(n) for j in range(m or n)
             if keep(i, j, k)]
        return tuple(_ints([x[a] for x in l]) for a in (0, 1))
    return f


_upper = lambda i, j, k: j >= i + k
_lower = lambda i, j, k: j <= i + k


def tri(n, m=None, k=0, dtype=None):
    r = zeros((n, m or n), dtype)
    for i, j in _np.ndindex(n, m or n):
        if j <= i + k:
            r[i, j] = 1
    return r


def ix_(*a):
    return tuple(_ints([int(y) for y in x]).reshape(
        tuple(-1 if k == n else 1 for k in range(len(a))))
        for n, x in enumerate(a))


def _shapeop(name):
    """Operations that only move elements."""
    def f(a, *args, **kw):
        a = asarray(a)
        return NDArr(getattr(_np, name)(a.data, *args, **kw), a.dt)
    return f


def _viewop(name):
    def f(a, *args, **kw):
        a = asarray(a)
        return NDArr(getattr(_np, name)(a._data, *args, **kw), a.dt, None,
                     a._part)
    return f


def _pred(f):
    def g(x):
        if isinstance(x, (NDArr, list, tuple)):
            return _map(asarray(x), lambda v: bool(f(v)), lambda d: 'b')
        return bool(f(x))
    return g


def _logic(f):
    def g(a, b):
        r = asarray(a)._bin(asarray(b), f, lambda d: 'b')
        return r if isinstance(r, NDArr) and r.ndim else bool(r)
    return g


def _mathfn(name):
    def f(s):
        if s.is_const() and s.const_value() == 0:
            if name in ('cos', 'cosh'):
                return lift(1)
            if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh',
                        'log1p', 'expm1'):
                return lift(0)
        return Sym.fn(name, s, positive=name == 'cosh')
    return f


def npround(a, decimals=0):
    def r1(x):
        if x.is_const():
            return lift(round(x.const_value(), decimals))
        return Sym.fn('round', x, decimals)

    def f(x):
        x = lift(x)
        if x.kind == 'c':
            r = r1(x.real) + r1(x.imag) * Sym(
                {((symb.I, 1),): Fraction(1)}, 'c')
            return Sym(r.t, 'c', True)
        return r1(x)
    return _ufunc1('round', f)(a)


class Vectorize:
    def __init__(self, f, otypes=None, **k):
        if k:
            raise AnalysisError('np.vectorize with ' + ', '.join(k))
        self.f, self.ot = f, otypes
        self.__name__ = getattr(f, '__name__', '?')

    def __call__(self, *a):
        a = [asarray(x) for x in a]
        bs = _np.broadcast_arrays(*[x.data for x in a])
        r = [self.f(*[_elt(x, y.dt) for x, y in zip(t, a)])
             for t in zip(*[b.ravel().tolist() for b in bs])]
        r = array(r, None if self.ot is None else self.ot[0])
        return r.reshape(bs[0].shape)


def fromfunction(f, shape, dtype=None, **k):
    if k:
        raise AnalysisError('np.fromfunction with ' + ', '.join(k))
    ix = _ints(_np.indices(tuple(shape)))
    if dtype is None or dtchar(dtype) != 'i':
        ix = ix.astype(float)
    return f(*[ix[i] for i in range(len(shape))])


def append(a, b, axis=None):
    if axis is not None:
        return _stack('concatenate')((a, b), axis=axis)
    return _stack('concatenate')((asarray(a).ravel(), asarray(b).ravel()))


def isin(a, b):
    b = asarray(b).ravel().data.tolist()
    return _pred(lambda v: any(bool(v == x) for x in b))(a)


class UFunc2:
    def __init__(self, name, op):
        self.__name__ = name
        self.op = op

    def __call__(self, a, b, out=None, **kw):
        if kw:
            raise AnalysisError('keyword arguments of np.' + self.__name__)
        if isinstance(a, (list, tuple)):
            a = array(a)
        if isinstance(b, (list, tuple)):
            b = array(b)
        if not isinstance(a, (NDArr, Sym)):
            a = asarray(a)
        r = self.op(a, b)
        if isinstance(r, NDArr) and r.ndim == 0:
            r = _elt(r.data[()], r.dt)
        if out is not None:
            out[...] = r
            return out
        return r

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def reduce(self, a, axis=0, **kw):
        a = asarray(a)
        if axis is None:
            a, axis = a.ravel(), 0
        l = [a[(slice(None),) * (axis % a.ndim) + (i,)]
             for i in range(a.shape[axis])]
        r = l[0]
        for x in l[1:]:
            r = self(r, x)
        return r


def vdot(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return _contract(a.conj(), b, 'i', 'i', '')


def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    la, lb = 'abcdefgh'[:a.ndim - 1], 'mnopqrst'[:b.ndim - 1]
    return _contract(a, b, la + 'z', lb + 'z', la + lb)


def copyto(dst, src, where=None):
    if where is not None:
        raise AnalysisError('np.copyto with where')
    dst[...] = src


class _IdxExp:
    def __getitem__(self, i):
        return i


def _minmax(f):
    def g(a, b):
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            return asarray(a)._bin(b, f)
        return f(a, b)
    return g


class _ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make_pi():
    return Sym({((symb.PI, 1),): Fraction(1)}, 'f')


def make_numpy():
    m = symb.ModelModule('numpy')
    d = m.__dict__
    d.update(
        ndarray=NDArr, array=array, asarray=asarray, zeros=zeros, ones=ones,
        empty=empty, full=full, eye=eye, identity=lambda n, dtype=None:
        eye(n, dtype=dtype), zeros_like=_like(zeros), ones_like=_like(ones),
        empty_like=_like(empty), full_like=full_like, einsum=einsum,
        tensordot=tensordot, dot=dot, matmul=matmul, outer=outer,
        transpose=lambda a, axes=None: asarray(a).transpose(axes),
        swapaxes=lambda a, i, j: asarray(a).swapaxes(i, j),
        moveaxis=_viewop('moveaxis'), rollaxis=_viewop('rollaxis'),
        expand_dims=_viewop('expand_dims'), flip=_viewop('flip'),
        fliplr=_viewop('fliplr'), flipud=_viewop('flipud'),
        rot90=_viewop('rot90'), atleast_1d=_viewop('atleast_1d'),
        atleast_2d=_viewop('atleast_2d'), permute_dims=_viewop('transpose'),
        roll=_shapeop('roll'), repeat=_shapeop('repeat'),
        tile=_shapeop('tile'), take=_shapeop('take'),
        triu=_tri(_upper), tril=_tri(_lower), tri=tri,
        triu_indices=_triind(_upper), tril_indices=_triind(_lower),
        diag_indices=lambda n, ndim=2: (_ints(list(range(n))),) * ndim,
        ix_=ix_, vdot=vdot, inner=inner, copyto=copyto,
        s_=_IdxExp(), index_exp=_IdxExp(),
        minimum=_minmax(min), maximum=_minmax(max),
        fromiter=lambda it, dtype=None, count=-1: array(list(it), dtype),
        isreal=_pred(lambda v: lift(v).imag == 0),
        iscomplex=_pred(lambda v: lift(v).imag != 0),
        vectorize=Vectorize, fromfunction=fromfunction,
        flatnonzero=lambda a: asarray(a).ravel().nonzero()[0],
        append=append, diagflat=lambda a: diag(asarray(a).ravel()),
        asanyarray=asarray, ascontiguousarray=asarray,
        logical_and=_logic(lambda a, b: bool(a) and bool(b)),
        logical_or=_logic(lambda a, b: bool(a) or bool(b)),
        logical_not=_pred(lambda v: not bool(v)),
        equal=_logic(lambda a, b: bool(a == b)),
        not_equal=_logic(lambda a, b: bool(a != b)),
        less=_logic(lambda a, b: bool(a < b)),
        greater=_logic(lambda a, b: bool(a > b)),
        less_equal=_logic(lambda a, b: bool(a <= b)),
        greater_equal=_logic(lambda a, b: bool(a >= b)),
        mean=lambda a: npsum(a) / lift(int(_np.prod(_shape(a)))),
        inf=Inf(), isin=isin, round=npround, around=npround, column_stack=_stack('column_stack'),
        dstack=_stack('dstack'),
        amax=lambda a: asarray(a).max(), amin=lambda a: asarray(a).min(),
        deg2rad=_ufunc1('deg2rad', lambda x: x * make_pi() / 180, _fl),
        rad2deg=_ufunc1('rad2deg', lambda x: x * 180 / make_pi(), _fl),
        radians=_ufunc1('radians', lambda x: x * make_pi() / 180, _fl),
        degrees=_ufunc1('degrees', lambda x: x * 180 / make_pi(), _fl),
        **{k: _ufunc1(k, _mathfn(v), _fl) for k, v in dict(
            sin='sin', cos='cos', tan='tan', arcsin='asin', arccos='acos',
            arctan='atan', sinh='sinh', cosh='cosh', tanh='tanh',
            log10='log10', log2='log2', log1p='log1p',
            expm1='expm1').items()},
        conj=_conj, conjugate=_conj, real=_npre('real'), imag=_npre('imag'),
        abs=_ufunc1('abs', abs, lambda t: 'f' if t == 'c' else t),
        angle=angle, arctan2=arctan2,
        hypot=lambda a, b: npsqrt(a ** 2 + b ** 2),
        sqrt=_ufunc1('sqrt', npsqrt, _fl),
        exp=_ufunc1('exp', lambda s: Sym.fn('exp', s), _fl),
        log=_ufunc1('log', lambda s: Sym.fn('log', s), _fl),
        isnan=isnan, isfinite=lambda x: isnan(x).__invert__() if isinstance(
            x, NDArr) else not isnan(x),
        shape=lambda x: _shape(x), ndim=lambda x: len(_shape(x)),
        size=lambda x: int(_np.prod(_shape(x))),
        indices=indices, ndindex=ndindex, ndenumerate=ndenumerate,
        arange=lambda *a: _ints(list(range(*a))),
        diag=diag, diagonal=diag, trace=lambda a: npsum(diag(a)),
        sum=npsum, prod=lambda a: asarray(a).prod(), where=where,
        any=lambda a: asarray(a).any(), all=lambda a: asarray(a).all(),
        nonzero=lambda a: asarray(a).nonzero(),
        count_nonzero=lambda a: sum(bool(x != 0) for x in
                                    asarray(a).data.ravel().tolist()),
        argwhere=lambda a: _ints(_np.array([list(map(int, i)) for i in zip(
            *[x.data for x in asarray(a).nonzero()])])),
        array_equal=array_equal,
        allclose=lambda *a, **k: bool(asarray(isclose(*a, **k)).all()),
        isclose=isclose, real_if_close=real_if_close, finfo=finfo,
        ravel=lambda a: asarray(a).ravel(),
        reshape=lambda a, s: asarray(a).reshape(s),
        concatenate=_stack('concatenate'), stack=_stack('stack'),
        vstack=_stack('vstack'), hstack=_stack('hstack'),
        copy=lambda a: asarray(a).copy(),
        add=UFunc2('add', operator.add),
        subtract=UFunc2('subtract', operator.sub),
        multiply=UFunc2('multiply', operator.mul),
        divide=UFunc2('divide', operator.truediv),
        true_divide=UFunc2('true_divide', operator.truediv),
        power=UFunc2('power', operator.pow),
        negative=lambda a: -asarray(a),
        unravel_index=lambda i, s: tuple(int(x) for x in
                                         _np.unravel_index(i, s)),
        nan=Sym(NANT, 'f'), NaN=Sym(NANT, 'f'),
        pi=Sym({((symb.PI, 1),): Fraction(1)}, 'f'), newaxis=None,
        nan_to_num=nan_to_num, fill_diagonal=fill_diagonal,
        broadcast_to=lambda a, s: NDArr(_np.broadcast_to(asarray(a)._data, s),
                                        asarray(a).dt),
        iscomplexobj=lambda a: asarray(a).dt == 'c',
        isrealobj=lambda a: asarray(a).dt != 'c',
        isscalar=lambda a: not isinstance(a, NDArr),
        errstate=_ErrState, generic=NpGeneric, number=NpNumber,
        inexact=NpInexact, floating=NpFloating,
        complexfloating=NpComplexfloating, float64=NpFloat,
        complex128=NpComplex, integer=NpInteger, int64=NpInt, bool_=NpBool,
        dtype=lambda x: DType(dtchar(x)),
        squeeze=lambda a, axis=None: asarray(a).squeeze(axis),
        max=lambda a: asarray(a).max(), min=lambda a: asarray(a).min(),
        square=lambda a: asarray(a) ** 2 if isinstance(a, NDArr) else a ** 2,
        kron=kron,
    )
    d['absolute'] = d['abs']
    la = symb.ModelModule('numpy.linalg')
    la.multi_dot = multi_dot
    la.norm = norm
    d['linalg'] = la
    return m
