"""Models of everything outside the repository (builtins, standard library,
numpy, yaml, rundec, ckmutil, pylha)."""
import argparse as _argparse
import builtins
import cmath as _cmath
import collections
import functools as _functools
import io
import json as _json
import math as _math
import operator
import os as _os
import posixpath
import re as _re
import sys as _sys
import types
from fractions import Fraction
import yaml as _yaml
from .symb import ModelModule
from . import symb, npmodel, tokens
from .symb import Sym, AnalysisError, keyof, lift, NANT
from .opq import Opq, OpqList, Inf, is_abstract
from .npmodel import NDArr

HOST_OK = '''re collections itertools copy operator string contextlib typing
enum dataclasses textwrap pprint abc warnings fractions numbers heapq bisect
types datetime time random decimal inspect traceback io keyword unicodedata
__future__ collections.abc difflib locale struct weakref'''.split()


def mod(_modname, **d):
    m = ModelModule(_modname)
    m.__dict__.update(d)
    return m


# ------------------------------------------------------------- virtual files
class BadText(str):
    """content of a file that is not valid text in the default encoding"""


class VFile:
    _lax = False

    def __init__(self, it, path, mode, text='', name=None):
        self._it, self._path, self.mode = it, path, mode
        self.name = name or path
        self.closed = False
        self._pos = 0
        self._r = 'r' in mode or '+' in mode
        self._w = any(c in mode for c in 'wax+')
        self._text = text
        self._bin = 'b' in mode

    def _data(self):
        if self._path is not None and self._path in self._it.vfs:
            v = self._it.vfs[self._path]
            if isinstance(v, str):
                return v
        return self._text

    def _put(self, t):
        self._text = t
        if self._path is not None:
            self._it.vfs[self._path] = t

    def _chk(self, ok):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not ok:
            raise io.UnsupportedOperation('not readable' if ok is self._r
                                          else 'not writable')

    def read(self, n=-1):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        d = self._rd()
        r = d[self._pos:] if n is None or n < 0 else \
            d[self._pos:self._pos + n]
        self._pos += len(r)
        return r.encode() if self._bin else r

    def __getattr__(self, n):
        if n.startswith('_') or not hasattr(io.TextIOWrapper, n):
            raise AttributeError("'_io.TextIOWrapper' object has no attribute"
                                 " '%s'" % n)
        raise AnalysisError('no model for file method ' + n)

    def _rd(self):
        d = self._data()
        if isinstance(self._it.vfs.get(self._path), BadText) and \
                not self._bin and not self._lax:
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1,
                                     'invalid start byte')
        return d

    def readline(self):
        d = self._rd()
        k = d.find('\n', self._pos)
        k = len(d) if k < 0 else k + 1
        r = d[self._pos:k]
        self._pos = k
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        if isinstance(s, Opq):
            s = tokens.opq_token(s)
        if isinstance(s, bytes):
            s = s.decode()
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s'
                            % type(s).__name__)
        self._put(self._data() + s)
        self._it.event('write', self._path or self.name, s)
        return len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def close(self):
        if not self.closed:
            self._it.event('close', self._path or self.name)
        self.closed = True

    def flush(self):
        pass

    def seek(self, p, w=0):
        self._pos = p if w == 0 else len(self._data())

    def tell(self):
        return self._pos

    def isatty(self):
        return False

    def fileno(self):
        return 3

    def truncate(self, n=None):
        self._put(self._data()[:n or 0])

    def getvalue(self):
        return self._data()

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


DIR = object()


def vopen(it):
    def open_(path, mode='r', *a, **k):
        if hasattr(path, '__fspath__'):
            path = path.__fspath__()
        if isinstance(path, Opq):
            path = tokens.opq_token(path)
        if not isinstance(path, str):
            raise TypeError('expected str, bytes or os.PathLike object, not '
                            + type(path).__name__)
        path = it.abspath(path)
        it.event('open', path, mode)
        if any(c in mode for c in 'wax'):
            if it.vfs.get(path) is DIR:
                raise IsADirectoryError(21, 'Is a directory', path)
            if it.strict_dirs and it.vfs.get(posixpath.dirname(path)) \
                    is not DIR:
                raise FileNotFoundError(2, 'No such file or directory', path)
            if 'x' in mode and path in it.vfs:
                raise FileExistsError(17, 'File exists', path)
            f = VFile(it, path, mode)
            if 'a' not in mode or path not in it.vfs:
                it.vfs[path] = ''
            return f
        if it.vfs.get(path) is DIR:
            raise IsADirectoryError(21, 'Is a directory', path)
        if path in it.vfs:
            f = VFile(it, path, mode)
            f._lax = k.get('errors') not in (None, 'strict') or \
                str(k.get('encoding')).lower() in ('latin-1', 'latin1',
                                                   'iso-8859-1', 'cp437')
            return f
        if path.startswith(it.repo + '/') and _os.path.isfile(path) and \
                it.repo_files:
            with builtins.open(path) as g:
                txt = g.read()
            it.consulted.add(path)
            return VFile(it, None, mode, txt, name=path)
        raise FileNotFoundError(2, 'No such file or directory', path)
    return open_


# ------------------------------------------------------------- builtins
def m_float(x=0):
    if isinstance(x, Sym):
        if x.kind == 'c':
            if x.npy:
                return Sym(x.real.t, 'f')
            raise TypeError("float() argument must be a string or a real "
                            "number, not 'complex'")
        return Sym(x.t, 'f', False)
    if isinstance(x, int):
        return Sym.const(float(x))
    if isinstance(x, Fraction):
        return Sym.const(x)
    if isinstance(x, float):
        return Sym.const(x)
    if isinstance(x, NDArr):
        if x.size == 1 and x.ndim == 0:
            return m_float(x.item())
        raise TypeError('only 0-dimensional arrays can be converted to '
                        'Python scalars')
    if isinstance(x, Opq):
        if x.typ in (dict, list, tuple, type(None)):
            raise TypeError('float() argument must be a string or a real '
                            'number')
        if x.typ in (float, int, bool):
            return Sym.fn('float', x)
        if not symb.decide(('float-ok', x.vf_key())):
            raise ValueError('could not convert to float')
        return Sym.fn('float', x)
    if isinstance(x, (str, bytes)):
        s = x if isinstance(x, str) else x.decode()
        t = tokens.parse(s)
        if t is not None:
            return m_float(t)
        try:
            float(s)
        except ValueError:
            raise ValueError('could not convert string to float: %r' % s)
        if s.strip().lower().lstrip('+-') in ('nan',):
            return Sym(NANT, 'f')
        if 'inf' in s.lower():
            return Inf(-1 if s.strip().startswith('-') else 1)
        if _math.isinf(float(s)):
            return Inf(-1 if s.strip().startswith('-') else 1)
        return Sym.const(float(s))
    raise TypeError("float() argument must be a string or a real number, "
                    "not '%s'" % type(x).__name__)


def m_complex(re=0, im=0):
    if isinstance(re, str):
        z = complex(re)
        return symb.mkcomplex(z)
    if isinstance(re, NDArr):
        re = re.item()
    if isinstance(im, NDArr):
        im = im.item()
    if re is None or im is None or isinstance(re, (dict, list, tuple)):
        raise TypeError('complex() first argument must be a string or a '
                        'number')
    r = lift(re)
    r = Sym(r.t, 'c', False)
    i = lift(im)
    if not i.t and not i.isnan_:
        return r
    z = r + Sym({((symb.I, 1),): Fraction(1)}, 'c') * i
    return Sym(z.t, 'c', False)


def m_int(x=0, base=10):
    if isinstance(x, Sym):
        if x.kind == 'c':
            raise TypeError('int() argument must be a string or a number')
        if x.is_const():
            return int(x.const_value())
        return Sym.fn('int', x)
    if isinstance(x, Opq):
        return Sym.fn('int', x)
    if isinstance(x, NDArr):
        return int(x)
    if isinstance(x, str):
        return int(x, base)
    return int(x)


def m_bool(x=False):
    return bool(x)


def m_round(x, n=None):
    if isinstance(x, Sym):
        if x.is_const():
            r = round(x.const_value(), n) if n is not None else \
                round(x.const_value())
            return Sym.const(r) if n is not None else r
        return Sym.fn('round', x, n)
    return round(x, n) if n is not None else round(x)


def make_builtins(it):
    B = {}

    def m_str(x='', *enc):
        if isinstance(x, Opq):
            return x if x.typ is str else tokens.opq_token(x)
        if isinstance(x, Sym):
            return tokens.sym_token(x)
        for n in ('__str__', '__repr__'):
            f = getattr(type(x), n, None)
            if f in it.funcs:
                return it.call(f, (x,), {})
        return str(x, *enc)

    def m_repr(x):
        if isinstance(x, Sym):
            return tokens.sym_token(x)
        if isinstance(x, Opq):
            return "'%s'" % tokens.opq_token(x)
        f = getattr(type(x), '__repr__', None)
        if f in it.funcs:
            return it.call(f, (x,), {})
        return repr(x)

    def m_format(x, spec=''):
        if isinstance(x, int) and not isinstance(x, bool) and \
                spec[-1:] in ('e', 'f', 'g', 'E', 'G'):
            return tokens.sym_token(lift(x), spec)
        return format(x, spec)

    def m_getattr(o, n, *d):
        try:
            return it.getattr(o, n)
        except AttributeError:
            if d:
                return d[0]
            raise

    def m_hasattr(o, n):
        try:
            it.getattr(o, n)
            return True
        except AttributeError:
            return False

    def m_type(*a):
        if len(a) == 3:
            return type(*a)
        x = a[0]
        if isinstance(x, Sym):
            if x.npy:
                return npmodel.NpFloat if x.kind == 'f' else npmodel.NpComplex
            return float if x.kind == 'f' else complex
        if isinstance(x, Opq):
            if x.typ is None:
                raise AnalysisError('type() of opaque value')
            return x.typ
        return type(x)

    def m_print(*a, sep=' ', end='\n', file=None, flush=False):
        s = sep.join(tokens.opq_token(x) if isinstance(x, Opq) else m_str(x)
                     for x in a) + end
        f = file if file is not None else it.stdout
        f.write(s)

    def m_input(prompt=''):
        it.event('input')
        if prompt != '':
            it.stdout.write(m_str(prompt))
        v = it.cfg.get('input')
        if v == 'abstract':
            return Opq.fresh('input', str)
        if v is None:
            v = it.stdin.readline()
            if not v:
                raise EOFError('EOF when reading a line')
            v = v[:-1] if v.endswith('\n') else v
        return v

    def m_exit(code=None):
        raise SystemExit(code)

    def m_abs(x):
        return abs(x)

    def m_sum(xs, start=0):
        r = start
        for x in xs:
            r = it.binop(__import__('ast').Add, r, x)
        return r

    def m_pow(a, b, *m):
        if m:
            return pow(a, b, *m)
        return it.binop(__import__('ast').Pow, a, b)

    def m_divmod(a, b):
        return divmod(a, b)

    def m_open(*a, **k):
        return vopen(it)(*a, **k)

    def m_hash(x):
        return hash(x)

    def m_sorted(xs, key=None, reverse=False):
        return sorted(xs, key=key, reverse=reverse)

    def m_vars(*a):
        return vars(*a)

    it.models = {
        float: m_float, complex: m_complex, int: m_int, str: m_str,
        repr: m_repr, format: m_format, isinstance: it.m_isinstance,
        getattr: m_getattr, hasattr: m_hasattr, setattr:
        lambda o, n, v: it.setattr(o, n, v), type: m_type, round: m_round,
        print: m_print, sum: m_sum, pow: m_pow, input: m_input,
        npmodel.NpFloat: lambda x=0: _np_scalar(m_float(x)),
        npmodel.NpComplex: lambda x=0: _np_scalar(m_complex(x)),
        npmodel.NpInt: lambda x=0: m_int(x),
        _functools.partial: None,
    }
    del it.models[_functools.partial]
    b = it.builtins
    b['open'] = m_open
    b['input'] = m_input
    b['quit'] = b['exit'] = m_exit
    b['__import__'] = lambda n, *a, **k: it.import_module(n.split('.')[0])
    # first-class use (map(float, ...)): give the host a model-aware callable
    it.first_class = {float: m_float, complex: m_complex, int: m_int,
                      str: m_str, repr: m_repr, isinstance: it.m_isinstance,
                      abs: abs, round: m_round, type: m_type, format:
                      m_format, getattr: m_getattr}


def _np_scalar(s):
    return Sym(s.t, s.kind, True)


def wrap_callback(it, f):
    """Callable to hand to host higher-order functions."""
    try:
        return it.first_class.get(f, f)
    except TypeError:
        return f


# ------------------------------------------------------------- math
def make_math(it):
    def real(x):
        if isinstance(x, NDArr):
            x = x.item()
        if isinstance(x, (str, dict, list, tuple)) or x is None:
            raise TypeError('must be real number, not ' + type(x).__name__)
        s = lift(x)
        if s.kind == 'c' and not s.npy:
            raise TypeError('must be real number, not complex')
        if s.kind == 'c':
            s = s.real
        return Sym(s.t, 'f', False)

    def sqrt(x):
        s = real(x)
        sg = s.sign()
        if sg is None and not symb.MODE.jet:
            if symb.ENGINE is not None and symb.ENGINE.mode == 'split' and \
                    symb.decide(('<', s)):
                raise ValueError('math domain error')
        if sg is not None and sg < 0:
            raise ValueError('math domain error')
        return symb.sqrt(s)

    def fn(name, **k):
        def f(*a):
            a = [real(x) for x in a]
            if all(x.is_const() for x in a):
                vals = [x.const_value() for x in a]
                if name == 'log' and vals == [1]:
                    return Sym({})
                if name in ('exp', 'cos') and vals == [0]:
                    return Sym.const(1)
                if name in ('sin', 'tan', 'atan', 'asin', 'atan2') and \
                        vals[0] == 0 and (len(vals) < 2 or vals[1] > 0):
                    return Sym({})
            return Sym.fn(name, *a, **k)
        return f

    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0):
        return symb.close(real(a), real(b), rel_tol, abs_tol, True)

    def intf(name):
        def f(x):
            s = real(x)
            if s.is_const():
                return getattr(_math, name)(s.const_value())
            return Sym.fn(name, s)
        return f
    d = dict(pi=npmodel.make_pi(), sqrt=sqrt, isclose=isclose,
             isnan=lambda x: real(x).isnan_,
             isinf=lambda x: False,
             isfinite=lambda x: not real(x).isnan_,
             fabs=lambda x: abs(real(x)), floor=intf('floor'),
             ceil=intf('ceil'), trunc=intf('trunc'),
             pow=lambda a, b: real(a) ** real(b),
             gcd=_math.gcd, factorial=_math.factorial, comb=_math.comb,
             prod=lambda xs: _functools.reduce(operator.mul, xs, 1),
             fsum=lambda xs: _functools.reduce(operator.add, xs, Sym({})),
             hypot=lambda *a: symb.sqrt(_functools.reduce(
                 operator.add, [real(x) ** 2 for x in a])),
             inf=Inf(), nan=Sym(NANT),
             degrees=lambda x: real(x) * 180 / npmodel.make_pi(),
             radians=lambda x: real(x) * npmodel.make_pi() / 180,
             copysign=lambda a, b: Sym.fn('copysign', real(a), real(b)))
    d['atan2'] = lambda y, x: npmodel.angle1(real(x) + Sym(
        {((symb.I, 1),): Fraction(1)}, 'c') * real(y))
    for n in 'log log10 log2 exp sin cos tan asin acos atan sinh cosh ' \
             'tanh log1p expm1'.split():
        d[n] = fn(n, positive=n in ('exp', 'cosh'))
    return mod('math', **d)


def make_cmath(it):
    def c(x):
        s = lift(x)
        return Sym(s.t, 'c', False)
    return mod('cmath', pi=npmodel.make_pi(),
               sqrt=lambda x: c(symb.sqrt(c(x))),
               exp=lambda x: Sym.fn('cexp', c(x), real=False),
               phase=lambda x: npmodel.angle1(lift(x)),
               polar=lambda x: (abs(lift(x)), npmodel.angle1(lift(x))),
               isclose=lambda a, b, *, rel_tol=1e-9, abs_tol=0: symb.close(
                   c(a), c(b), rel_tol, abs_tol, True),
               isfinite=lambda x: not lift(x).isnan_,
               isinf=lambda x: False,
               isnan=lambda x: lift(x).isnan_)


# ------------------------------------------------------------- functools
class Memo:
    def __init__(self, it, f, maxsize=128):
        self._it, self._f, self._c = it, f, {}
        self.__wrapped__ = f
        self.__name__ = getattr(f, '__name__', '?')
        self.__doc__ = getattr(f, '__doc__', None)
        self._max = maxsize
        it.memos.append(self)

    def __call__(self, *a, **k):
        key = (a, tuple(sorted(k.items())))
        hash(key)
        for kk, v in self._c.items():
            if hash(kk) == hash(key) and _exact(kk, key):
                return v
        r = self._it.call(self._f, a, k)
        self._c[key] = r
        return r

    def __get__(self, o, t=None):
        if o is None:
            return self
        return types.MethodType(self, o)

    def cache_clear(self):
        self._c.clear()

    def cache_info(self):
        return _functools._CacheInfo(0, 0, self._max, len(self._c))


def _exact(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_exact(x, y) for x, y in zip(a, b))
    if isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float)):
        return symb.same(a, b)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return keyof(a) == keyof(b)
    return a == b


def make_functools(it):
    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize):
            return Memo(it, maxsize)
        return lambda f: Memo(it, f, maxsize)

    class cached_property:
        def __init__(self, f):
            self.f = f
            self.__doc__ = f.__doc__

        def __set_name__(self, o, n):
            self.n = n

        def __get__(self, o, t=None):
            if o is None:
                return self
            v = self.f(o)
            o.__dict__[self.n] = v
            return v

    return mod('functools', lru_cache=lru_cache,
               cache=lambda f: Memo(it, f, None), wraps=_functools.wraps,
               update_wrapper=_functools.update_wrapper,
               partial=_functools.partial, reduce=_functools.reduce,
               cmp_to_key=_functools.cmp_to_key,
               total_ordering=_functools.total_ordering,
               cached_property=cached_property,
               singledispatch=_functools.singledispatch)


# ------------------------------------------------------------- os & friends
def make_os(it):
    def s(p):
        if hasattr(p, '__fspath__'):
            p = p.__fspath__()
        if isinstance(p, Opq):
            return tokens.opq_token(p)
        return p

    def w(f):
        return lambda *a, **k: f(*[s(x) for x in a], **k)

    def isfile(p):
        p = it.abspath(s(p))
        if p in it.vfs:
            return it.vfs[p] is not DIR
        return it.repo_files and p.startswith(it.repo + '/') and \
            _os.path.isfile(p)

    def isdir(p):
        p = it.abspath(s(p))
        if p in it.vfs:
            return it.vfs[p] is DIR
        if any(q.startswith(p + '/') for q in it.vfs):
            return True
        return it.repo_files and p.startswith(it.repo) and _os.path.isdir(p)

    def exists(p):
        return isfile(p) or isdir(p)

    P = mod('os.path', join=w(posixpath.join), dirname=w(posixpath.dirname),
            basename=w(posixpath.basename), split=w(posixpath.split),
            splitext=w(posixpath.splitext), normpath=w(posixpath.normpath),
            abspath=lambda p: it.abspath(s(p)),
            realpath=lambda p: it.abspath(s(p)),
            isabs=w(posixpath.isabs), expanduser=w(lambda p: p),
            expandvars=w(lambda p: p), isfile=isfile, isdir=isdir,
            exists=exists, lexists=exists, islink=lambda p: False,
            relpath=w(posixpath.relpath), sep='/', pardir='..', curdir='.',
            commonprefix=posixpath.commonprefix,
            getsize=lambda p: len(it.vfs[it.abspath(s(p))]))

    def listdir(p='.'):
        p = it.abspath(s(p))
        if not isdir(p):
            raise FileNotFoundError(2, 'No such file or directory', p)
        r = sorted({q[len(p) + 1:].split('/')[0] for q in it.vfs
                    if q.startswith(p + '/')})
        order = it.cfg.get('glob_order')
        return order(r) if order else r

    def walk(p):
        p = it.abspath(s(p))
        names = listdir(p)
        ds = [n for n in names if isdir(p + '/' + n)]
        fs = [n for n in names if not isdir(p + '/' + n)]
        yield p, ds, fs
        for d in ds:
            yield from walk(p + '/' + d)

    def remove(p):
        p = it.abspath(s(p))
        it.event('remove', p)
        if p not in it.vfs:
            raise FileNotFoundError(2, 'No such file or directory', p)
        del it.vfs[p]

    def rmdir(p):
        p = it.abspath(s(p))
        it.event('rmdir', p)
        it.vfs.pop(p, None)

    def mkdir(p, *a, **k):
        it.vfs[it.abspath(s(p))] = DIR

    def rename(a, b):
        it.vfs[it.abspath(s(b))] = it.vfs.pop(it.abspath(s(a)))

    class _DirEnt:
        def __init__(self, d, n):
            self.name, self.path = n, d + '/' + n

        def is_file(self):
            return isfile(self.path)

        def is_dir(self):
            return isdir(self.path)

        def __fspath__(self):
            return self.path

    os = mod('os', path=P, sep='/', linesep='\n', environ=dict(
        it.cfg.get('environ', {})), getcwd=lambda: '/work', listdir=listdir,
        remove=remove, unlink=remove, rmdir=rmdir, mkdir=mkdir,
        makedirs=mkdir, rename=rename, replace=rename, walk=walk,
        getenv=lambda k, d=None: it.cfg.get('environ', {}).get(k, d),
        scandir=lambda p='.': [_DirEnt(it.abspath(s(p)), n)
                               for n in listdir(p)],
        getpid=lambda: 1, devnull='/dev/null', name='posix',
        fspath=s, PathLike=_os.PathLike, pardir='..', curdir='.',
        _exit=lambda c: (_ for _ in ()).throw(SystemExit(c)))
    it.ext['os.path'] = P
    return os


def make_glob(it):
    import fnmatch

    def glob(pat, recursive=False, root_dir=None):
        if isinstance(pat, Opq):
            pat = tokens.opq_token(pat)
        p = it.abspath(pat)
        rx = '/'.join('.*' if c == '**' else fnmatch.translate(c)[4:-3]
                      if _re.search(r'[*?\[]', c) else _re.escape(c)
                      for c in p.split('/')).replace('/.*/', '/(?:.*/)?')
        rx = rx.replace('(?s:', '(?:')
        r = []
        names = set(it.vfs)
        for q in list(names):
            d = posixpath.dirname(q)
            while d not in ('/', ''):
                names.add(d)
                d = posixpath.dirname(d)
        parts = p.split('/')
        for q in names:
            qp = q.split('/')
            if '**' in parts:
                ok = _re.fullmatch(rx, q)
            else:
                ok = len(qp) == len(parts) and all(
                    fnmatch.fnmatchcase(a, b) and not (
                        a.startswith('.') and not b.startswith('.'))
                    if _re.search(r'[*?\[]', b) else a == b
                    for a, b in zip(qp, parts))
            if ok:
                r.append(q)
        order = it.cfg.get('glob_order')
        r.sort()
        if order:
            r = order(r)
        it.event('glob', p, tuple(r))
        return r
    return mod('glob', glob=glob, iglob=lambda *a, **k: iter(glob(*a, **k)),
               escape=lambda p: p)


def make_pathlib(it):
    osm = it.import_ext('os')
    P = osm.path

    class Path:
        def __init__(self, *parts):
            self._p = P.join(*[getattr(x, '_p', x) for x in parts]) if parts \
                else '.'

        def __truediv__(self, o):
            return Path(self._p, o)

        def __fspath__(self):
            return self._p

        def __str__(self):
            return self._p
        __repr__ = __str__

        def __eq__(self, o):
            return isinstance(o, Path) and o._p == self._p

        def __hash__(self):
            return hash(self._p)

        def __lt__(self, o):
            return self._p < o._p

        @property
        def parent(self):
            return Path(P.dirname(self._p))

        @property
        def name(self):
            return P.basename(self._p)

        @property
        def stem(self):
            return P.splitext(self.name)[0]

        @property
        def suffix(self):
            return P.splitext(self.name)[1]

        def resolve(self):
            return Path(P.abspath(self._p))
        absolute = resolve

        def joinpath(self, *a):
            return Path(self._p, *a)

        def open(self, mode='r', **k):
            return vopen(it)(self._p, mode)

        def read_text(self, *a, **k):
            with vopen(it)(self._p) as f:
                return f.read()

        def write_text(self, t, *a, **k):
            with vopen(it)(self._p, 'w') as f:
                f.write(t)

        def exists(self):
            return P.exists(self._p)

        def is_dir(self):
            return P.isdir(self._p)

        def is_file(self):
            return P.isfile(self._p)

        def glob(self, pat):
            return [Path(x) for x in it.import_ext('glob').glob(
                P.join(self._p, pat), recursive=True)]

        def rglob(self, pat):
            return self.glob('**/' + pat)

        def iterdir(self):
            return [Path(self._p, n) for n in osm.listdir(self._p)]

        def unlink(self, missing_ok=False):
            try:
                osm.remove(self._p)
            except FileNotFoundError:
                if not missing_ok:
                    raise

        def mkdir(self, *a, **k):
            osm.mkdir(self._p)
    return mod('pathlib', Path=Path, PurePath=Path, PosixPath=Path)


# ------------------------------------------------------------- json / yaml
def _jenc(x, it):
    if isinstance(x, Sym):
        if x.kind == 'c':
            raise TypeError('Object of type complex is not JSON serializable')
        if x.isnan_:
            return float('nan')
        return tokens.sym_token(x, 'j')
    if isinstance(x, Opq):
        if x.typ is str:
            return tokens.opq_token(x)
        return tokens.opq_token(x)
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if isinstance(k, Opq):
                k = tokens.opq_token(k)
            elif isinstance(k, Sym):
                k = tokens.sym_token(k)
            elif not isinstance(k, (str, int, float, bool, type(None))):
                raise TypeError('keys must be str, int, float, bool or None, '
                                'not %s' % type(k).__name__)
            out[k] = _jenc(v, it)
        return out
    if isinstance(x, (list, tuple)):
        return [_jenc(v, it) for v in x]
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    raise TypeError('Object of type %s is not JSON serializable'
                    % type(x).__name__)


_NUM = '\u2768'                 # marks tokens that are not quoted
_JQ = _re.compile('"(' + tokens.L + r'S\d+;j' + tokens.R + ')"')
_JB = _re.compile(r'(?<![\w"' + tokens.L + '])(' + tokens.L + r'S\d+(?:;[^' +
                  tokens.R + r']*)?' + tokens.R + r')(?!["\w])')


def _dec(x, hook=None):
    """host document -> abstract document"""
    if isinstance(x, bool) or x is None or isinstance(x, int):
        return x
    if isinstance(x, float):
        return Sym.const(x)
    if isinstance(x, str):
        if x.startswith(_NUM):
            return tokens.value(tokens.TOK.fullmatch(x[1:]))
        m = tokens.TOK.fullmatch(x)
        if m and m.group(1) == 'O':
            return tokens.value(m)
        return x
    if isinstance(x, dict):
        return type(x)((_deck(k), _dec(v)) for k, v in x.items())
    if isinstance(x, list):
        return [_dec(v) for v in x]
    return x


def _deck(k):
    if isinstance(k, str):
        m = tokens.TOK.fullmatch(k)
        if m and m.group(1) == 'O':
            return tokens.value(m)
    if isinstance(k, float):
        return Sym.const(k)
    return k


def make_json(it):
    def dumps(d, **k):
        it.event('json-dump', k.get('indent'))
        dflt = k.pop('default', None)
        cls = k.pop('cls', None)
        if dflt is not None or cls is not None:
            if cls is not None:
                raise AnalysisError('json cls=')
            d = _apply_default(d, dflt)
        t = _json.dumps(_jenc(d, it), ensure_ascii=False, **{
            a: b for a, b in k.items() if a != 'ensure_ascii'})
        return _JQ.sub(r'\1', t)

    def _apply_default(d, f):
        if isinstance(d, dict):
            return {k: _apply_default(v, f) for k, v in d.items()}
        if isinstance(d, (list, tuple)):
            return [_apply_default(v, f) for v in d]
        if isinstance(d, Sym) and d.kind == 'c' or not isinstance(
                d, (Sym, Opq, str, int, float, bool, type(None))):
            return _apply_default(f(d), f)
        return d

    def dump(d, fp, **k):
        fp.write(dumps(d, **k))

    def loads(s, **k):
        if isinstance(s, bytes):
            s = s.decode()
        if isinstance(s, Opq):
            raise AnalysisError('json.loads of an opaque string')
        if not isinstance(s, str):
            raise TypeError('the JSON object must be str, bytes or bytearray,'
                            ' not %s' % type(s).__name__)
        hook = k.pop('object_pairs_hook', None)
        pf = k.pop('parse_float', None)
        ohook = k.pop('object_hook', None)
        s2 = _JB.sub('"' + _NUM + r'\1"', s)
        kw = {a: b for a, b in k.items() if a in ('strict',)}
        for a in ('parse_int', 'parse_constant'):
            if k.get(a) is not None:
                kw[a] = lambda x, f=k[a]: it.call(f, (x,), {})
        pf = None if pf is it.builtins['float'] else pf
        bad = set(k) - {'strict', 'parse_int', 'parse_constant'}
        if bad:
            raise TypeError("JSONDecoder.__init__() got an unexpected keyword "
                            "argument '%s'" % sorted(bad)[0])
        r = _dec(_json.loads(s2, **kw))
        if pf is not None:
            def num(x):
                if isinstance(x, dict):
                    return {a: num(b) for a, b in x.items()}
                if isinstance(x, list):
                    return [num(v) for v in x]
                if isinstance(x, Sym):
                    return it.call(pf, (repr(float(x.const_value())) if x.is_const()
                                        else tokens.sym_token(x),), {})
                return x
            r = num(r)
        if hook or ohook:
            def rec(x):
                if isinstance(x, dict):
                    ps = [(a, rec(b)) for a, b in x.items()]
                    return hook(ps) if hook else ohook(dict(ps))
                if isinstance(x, list):
                    return [rec(v) for v in x]
                return x
            r = rec(r)
        return r

    def load(fp, **k):
        return loads(fp.read(), **k)
    dec = mod('json.decoder', JSONDecodeError=_json.JSONDecodeError)
    return mod('json', dumps=dumps, dump=dump, loads=loads, load=load,
               JSONDecodeError=_json.JSONDecodeError, decoder=dec,
               JSONEncoder=_json.JSONEncoder)


def make_yaml(it):
    class Dumper(_yaml.Dumper):
        def ignore_aliases(self, data):
            if isinstance(data, (Sym, Opq)):
                return True
            return super().ignore_aliases(data)

    class SafeDumper(_yaml.SafeDumper):
        def ignore_aliases(self, data):
            if isinstance(data, (Sym, Opq)):
                return True
            return super().ignore_aliases(data)

    class FullLoader(_yaml.FullLoader):
        pass

    class SafeLoader(_yaml.SafeLoader):
        pass

    class UnsafeLoader(_yaml.UnsafeLoader):
        pass

    def rep_sym(d, x):
        if x.npy:
            return d.represent_scalar(
                'tag:yaml.org,2002:python/object/apply:numpy.core.multiarray.'
                'scalar', tokens.sym_token(x))
        if x.kind == 'c':
            return d.represent_scalar('tag:yaml.org,2002:python/complex',
                                      tokens.sym_token(x))
        if x.isnan_:
            return d.represent_scalar('tag:yaml.org,2002:float', '.nan')
        return d.represent_scalar('tag:yaml.org,2002:vfsym',
                                  tokens.sym_token(x))

    def rep_opq(d, x):
        return d.represent_scalar('tag:yaml.org,2002:str',
                                  tokens.opq_token(x))
    for D in (Dumper, SafeDumper):
        D.yaml_representers = dict(D.yaml_representers)
        D.add_representer(Sym, rep_sym)
        D.add_representer(Opq, rep_opq)
        D.add_implicit_resolver('tag:yaml.org,2002:vfsym',
                                _re.compile(tokens.L + r'S\d+' + tokens.R
                                            + '$'), [tokens.L])

    def con_sym(l, node):
        return tokens.parse(l.construct_scalar(node))

    def con_str(l, node):
        s = l.construct_scalar(node)
        m = tokens.TOK.fullmatch(s)
        if m and m.group(1) == 'O':
            return tokens.value(m)
        return s

    def con_float(l, node):
        v = _yaml.constructor.SafeConstructor.construct_yaml_float(l, node)
        return Sym.const(v)

    def con_cplx(l, node):
        t = tokens.parse(l.construct_scalar(node))
        if t is None:
            return symb.mkcomplex(complex(l.construct_scalar(node)))
        return t
    for Lo in (FullLoader, SafeLoader, UnsafeLoader):
        Lo.yaml_constructors = dict(Lo.yaml_constructors)
        Lo.yaml_implicit_resolvers = {
            k: list(v) for k, v in Lo.yaml_implicit_resolvers.items()}
        Lo.add_implicit_resolver('tag:yaml.org,2002:vfsym',
                                 _re.compile(tokens.L + r'S\d+(;j)?' +
                                             tokens.R + '$'), [tokens.L])
        Lo.add_constructor('tag:yaml.org,2002:vfsym', con_sym)
        Lo.add_constructor('tag:yaml.org,2002:str', con_str)
        Lo.add_constructor('tag:yaml.org,2002:float', con_float)
        if Lo is not SafeLoader:
            Lo.add_constructor('tag:yaml.org,2002:python/complex', con_cplx)

    def text(s):
        if hasattr(s, 'read'):
            s = s.read()
        if isinstance(s, bytes):
            s = s.decode()
        if isinstance(s, Opq):
            raise AnalysisError('yaml.load of an opaque string')
        if not isinstance(s, str):
            raise AttributeError("'%s' object has no attribute 'read'"
                                 % type(s).__name__)
        return s

    def load(stream, Loader=None):
        return _yaml.load(text(stream), Loader=Loader or FullLoader)

    def dump(data, stream=None, Dumper=Dumper, **k):
        it.event('yaml-dump', k.get('default_flow_style'))
        k['allow_unicode'] = True
        k.setdefault('default_flow_style', False)
        k['width'] = 10 ** 6
        t = _yaml.dump(data, None, Dumper=Dumper, **k)
        if stream is None:
            return t
        stream.write(t)

    def load_all(stream, Loader=None):
        return iter(list(_yaml.load_all(text(stream),
                                        Loader=Loader or FullLoader)))

    def add_representer(t, f, Dumper=Dumper):
        Dumper.add_representer(t, f)

    def add_constructor(tag, f, Loader=None):
        for Lo in ([Loader] if Loader else [FullLoader, UnsafeLoader]):
            Lo.add_constructor(tag, f)
    res = mod('yaml.resolver', BaseResolver=_yaml.resolver.BaseResolver)
    rpr = mod('yaml.representer',
              SafeRepresenter=_yaml.representer.SafeRepresenter,
              Representer=_yaml.representer.Representer)
    return mod('yaml', load=load, dump=dump, add_representer=add_representer,
               add_constructor=add_constructor, resolver=res,
               representer=rpr, Loader=FullLoader, FullLoader=FullLoader,
               SafeLoader=SafeLoader, UnsafeLoader=UnsafeLoader,
               CLoader=FullLoader, CSafeLoader=SafeLoader, Dumper=Dumper,
               SafeDumper=SafeDumper, CDumper=Dumper,
               YAMLError=_yaml.YAMLError, scanner=_yaml.scanner,
               parser=_yaml.parser, constructor=_yaml.constructor,
               load_all=load_all, full_load_all=load_all,
               safe_load_all=lambda s: load_all(s, SafeLoader),
               composer=_yaml.composer, reader=_yaml.reader,
               nodes=_yaml.nodes, ScalarNode=_yaml.ScalarNode,
               MappingNode=_yaml.MappingNode, Node=_yaml.Node,
               SequenceNode=_yaml.SequenceNode, emitter=_yaml.emitter,
               error=_yaml.error, MarkedYAMLError=_yaml.MarkedYAMLError,
               safe_load=lambda s: load(s, Loader=SafeLoader),
               full_load=load, unsafe_load=lambda s: load(
                   s, Loader=UnsafeLoader),
               safe_dump=lambda d, s=None, **k: dump(
                   d, s, Dumper=SafeDumper, **k))


# ------------------------------------------------------------- argparse
def make_argparse(it):
    class FileType:
        def __init__(self, mode='r', *a, **k):
            self.mode = mode

        def __call__(self, s):
            if s == '-':
                return it.stdin if 'r' in self.mode else it.stdout
            try:
                return vopen(it)(s, self.mode)
            except OSError as e:
                raise _argparse.ArgumentTypeError("can't open '%s': %s"
                                                  % (s, e))

    class ArgumentParser(_argparse.ArgumentParser):
        def __init__(self, *a, **k):
            k.setdefault('prog', 'prog')
            super().__init__(*a, **k)

        def add_argument(self, *a, **k):
            if 'type' in k:
                k['type'] = wrap_type(it, k['type'])
            return super().add_argument(*a, **k)

        def parse_args(self, args=None, namespace=None):
            return super().parse_args(it.argv[1:] if args is None else args,
                                      namespace)

        def parse_known_args(self, args=None, namespace=None):
            return super().parse_known_args(it.argv[1:] if args is None
                                            else args, namespace)

        def print_help(self, file=None):
            it.event('print_help')

        def print_usage(self, file=None):
            it.event('print_usage')

        def _print_message(self, message, file=None):
            it.event('argparse-message', message)

        def error(self, message):
            it.event('argparse-error', message)
            raise SystemExit(2)

        def exit(self, status=0, message=None):
            raise SystemExit(status)
    d = {n: getattr(_argparse, n) for n in dir(_argparse)
         if not n.startswith('_')}
    d.update(ArgumentParser=ArgumentParser, FileType=FileType)
    return mod('argparse', **d)


def wrap_type(it, f):
    g = wrap_callback(it, f)
    if g is f:
        return f

    def conv(s):
        return g(s)
    conv.__name__ = getattr(f, '__name__', 'type')
    return conv


def make_sys(it):
    return mod('sys', argv=it.argv, stdin=it.stdin, stdout=it.stdout,
               stderr=it.stderr, exit=lambda c=None: (_ for _ in ()).throw(
                   SystemExit(c)), version_info=_sys.version_info,
               version=_sys.version, maxsize=_sys.maxsize, path=[],
               modules=it.modules, platform='linux', executable='python3',
               byteorder='little', float_info=_sys.float_info,
               flags=types.SimpleNamespace(optimize=int(it.optimize)),
               exc_info=lambda: (None, None, None))


def make_logging(it):
    def log(level):
        def f(*a, **k):
            it.event('log', level, a)
        return f
    d = {n: log(n) for n in ('debug', 'info', 'warn', 'warning', 'error',
                             'exception', 'critical', 'log')}

    class Logger:
        def __getattr__(self, n):
            if n in d:
                return d[n]
            if n in ('setLevel', 'addHandler', 'removeHandler',
                     'isEnabledFor'):
                return lambda *a, **k: None
            raise AttributeError(n)
    lg = Logger()
    d.update(getLogger=lambda *a: lg, basicConfig=lambda **k: None,
             DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50,
             Logger=Logger, disable=lambda *a: None,
             captureWarnings=lambda *a: None,
             NullHandler=lambda *a: None, StreamHandler=lambda *a: None)
    return mod('logging', **d)


# ------------------------------------------------------------- processes, tmp
def make_tempfile(it):
    cnt = [0]

    def mkdtemp(*a, **k):
        cnt[0] += 1
        p = '/tmp/vf%d' % cnt[0]
        it.vfs[p] = DIR
        it.temps[p] = it.where()
        it.event('mkdtemp', p)
        return p

    def mkstemp(suffix='', prefix='', dir=None, text=False):
        cnt[0] += 1
        p = posixpath.join(dir or '/tmp', 'vf%d%s' % (cnt[0], suffix or ''))
        it.vfs[p] = ''
        if dir is None or dir not in it.temps:
            it.temps[p] = it.where()
        return 3, p

    def rm(p):
        for q in list(it.vfs):
            if q == p or q.startswith(p + '/'):
                del it.vfs[q]
        it.temps.pop(p, None)
        it.event('rmtree', p)

    class TemporaryDirectory:
        def __init__(self, *a, **k):
            self.name = mkdtemp()

        def __enter__(self):
            return self.name

        def __exit__(self, *a):
            self.cleanup()
            return False

        def cleanup(self):
            rm(self.name)

    class NamedTemporaryFile(VFile):
        def __init__(self, mode='w+b', *a, delete=True, suffix='', dir=None,
                     **k):
            p = mkstemp(suffix=suffix, dir=dir)[1]
            self._del = delete
            VFile.__init__(self, it, p, mode)

        def close(self):
            VFile.close(self)
            if self._del:
                rm(self._path)
    it.rmtree = rm
    return mod('tempfile', mkdtemp=mkdtemp, mkstemp=mkstemp,
               TemporaryDirectory=TemporaryDirectory,
               NamedTemporaryFile=NamedTemporaryFile,
               TemporaryFile=NamedTemporaryFile, gettempdir=lambda: '/tmp')


def make_shutil(it):
    it.import_ext('tempfile')

    def rmtree(p, ignore_errors=False, onerror=None, **k):
        if it.vfs.get(it.abspath(p)) is not DIR:
            if ignore_errors:
                return
            raise FileNotFoundError(2, 'No such file or directory', p)
        it.rmtree(it.abspath(p))

    def which(cmd, *a, **k):
        return '/usr/bin/' + cmd if symb.decide(('which', cmd)) else None

    def copyfile(a, b):
        it.vfs[it.abspath(b)] = it.vfs[it.abspath(a)]
    return mod('shutil', rmtree=rmtree, which=which, copyfile=copyfile,
               copy=copyfile, move=lambda a, b: None)


def make_subprocess(it):
    import subprocess as sp

    def run(args, **k):
        h = it.cfg.get('subprocess')
        if h is None:
            raise AnalysisError('subprocess without model')
        it.event('subprocess', tuple(args))
        r = h(it, list(args), k)
        if k.get('check') and r.returncode != 0:
            raise sp.CalledProcessError(1, args)
        return r

    class Popen:
        def __init__(self, args, **k):
            self._r = run(args)
            self.returncode = self._r.returncode

        def communicate(self, *a, **k):
            return (self._r.stdout, None)

        def wait(self, *a, **k):
            return self.returncode

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    return mod('subprocess', run=run, call=lambda a, **k: run(a, **k)
               .returncode, check_call=lambda a, **k: run(a, check=True),
               check_output=lambda a, **k: run(a, check=True).stdout,
               Popen=Popen, DEVNULL=-3, PIPE=-1, STDOUT=-2,
               CalledProcessError=sp.CalledProcessError,
               TimeoutExpired=sp.TimeoutExpired,
               SubprocessError=sp.SubprocessError,
               CompletedProcess=sp.CompletedProcess)


def make_pkgutil(it):
    def get_data(pkg, res):
        m = it.import_module(pkg)
        p = posixpath.join(posixpath.dirname(m.__file__), res)
        p = posixpath.normpath(p)
        if not _os.path.isfile(p):
            raise FileNotFoundError(2, 'No such file or directory', p)
        it.consulted.add(p)
        with builtins.open(p, 'rb') as f:
            return f.read()
    return mod('pkgutil', get_data=get_data)


def make_pkg_resources(it):
    def name(pkg, res):
        m = it.import_module(pkg)
        return posixpath.normpath(posixpath.join(posixpath.dirname(
            m.__file__), res))

    def string(pkg, res):
        with builtins.open(name(pkg, res), 'rb') as f:
            return f.read()
    return mod('pkg_resources', resource_filename=name,
               resource_string=string,
               resource_stream=lambda p, r: io.BytesIO(string(p, r)))


def make_importlib(it):
    class Trav:
        def __init__(self, p):
            self._p = p

        def joinpath(self, *a):
            return Trav(posixpath.join(self._p, *a))
        __truediv__ = joinpath

        def read_text(self, *a, **k):
            with builtins.open(self._p) as f:
                return f.read()

        def read_bytes(self):
            with builtins.open(self._p, 'rb') as f:
                return f.read()

        def open(self, *a, **k):
            return vopen(it)(self._p, *a)

        def is_file(self):
            return _os.path.isfile(self._p)

        def __fspath__(self):
            return self._p

    def files(p):
        m = it.import_module(p) if isinstance(p, str) else p
        return Trav(posixpath.dirname(m.__file__))
    r = mod('importlib.resources', files=files,
            read_text=lambda p, n, **k: files(p).joinpath(n).read_text(),
            read_binary=lambda p, n: files(p).joinpath(n).read_bytes())
    it.ext['importlib.resources'] = r
    return mod('importlib', import_module=lambda n, package=None:
               it.import_module(n if not n.startswith('.') else
                                (package or '') + n), resources=r)


# ------------------------------------------------------------- physics libs
class _Nf:
    def __init__(self):
        self.nf = self.Mth = self.muth = None

    def vf_key(self):
        return ('nfMmu', keyof(self.nf), keyof(self.Mth), keyof(self.muth))


def make_rundec(it):
    def scal(a):
        out = []
        for x in a:
            if isinstance(x, (Sym,)) and x.kind == 'c':
                raise TypeError('must be real number, not complex')
            if isinstance(x, (str, dict, list)) or x is None:
                raise TypeError('must be real number')
            out.append(x)
        return out

    class CRunDec:
        def __init__(self, nf=None):
            self.nfMmu = _Nf()
            self.mq = [_Nf() for _ in range(4)]
            self._nf = nf

        def __getattr__(self, n):
            if n.startswith('_'):
                raise AttributeError(n)

            def f(*a):
                a = scal(a)
                it.event('rundec', n, tuple(keyof(x) for x in a))
                return Sym.fn('rundec.' + n, *a, positive=True)
            return f
    return mod('rundec', CRunDec=CRunDec)


def make_ckmutil(it):
    def ckm_tree(Vus, Vub, Vcb, gamma, delta_expansion_order=None):
        a = (Vus, Vub, Vcb, gamma)
        it.event('ckm', tuple(keyof(x) for x in a))
        h = it.cfg.get('ckm')
        if h is not None:
            return h(*a)
        return ckm_atoms(a)

    def msvd(m):
        raise AnalysisError('ckmutil.diag.msvd')

    def opaque(name):
        def f(*a, **k):
            h = it.cfg.get('ckmutil.' + name)
            if h:
                return h(*a, **k)
            raise AnalysisError('ckmutil function ' + name)
        return f
    ckm = mod('ckmutil.ckm', ckm_tree=ckm_tree)
    diag = mod('ckmutil.diag', msvd=opaque('msvd'), meigs=opaque('meigs'),
               mtakfac=opaque('mtakfac'))
    it.ext['ckmutil.ckm'] = ckm
    it.ext['ckmutil.diag'] = diag
    return mod('ckmutil', ckm=ckm, diag=diag)


def ckm_atoms(a):
    """CKM matrix of uninterpreted elements keyed by the arguments."""
    ks = [keyof(x) for x in a]
    import numpy as np
    d = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            i_ = symb.A.get(('fn', 'V%d%d' % (i + 1, j + 1)) + tuple(ks),
                            real=False)
            d[i, j] = Sym({((i_, 1),): Fraction(1)}, 'c')
    return NDArr(d, 'c')


def make_pylha(it):
    def dump(d, fmt='json', stream=None):
        it.event('pylha-dump', fmt)
        if fmt == 'json':
            j = it.import_module('json')
            return it.call(j.dumps, (d,), {}) if stream is None else \
                it.call(j.dump, (d, stream), {})
        if fmt != 'lha':
            raise AnalysisError('pylha.dump fmt')
        st = it.models[str]
        out = []
        for kind, blocks in d.items():
            for name, block in blocks.items():
                out.append('%s %s' % (st(kind), st(name)))
                if 'info' in block:
                    out.append(' ' + ' '.join(st(e) for e in block['info']))
                out.append('\n')
                for v in block['values']:
                    out.append('    ' + '    '.join(st(e) for e in v) + '\n')
        t = ''.join(out)
        if stream is None:
            return t
        return it.call(it.getattr(stream, 'write'), (t,), {})
    return mod('pylha', dump=dump)


def host_module(name):
    def f(it):
        import importlib
        m = importlib.import_module(name)
        if name == 'warnings':
            return mod('warnings', warn=lambda *a, **k: it.event('warn', a),
                       simplefilter=lambda *a, **k: None,
                       filterwarnings=lambda *a, **k: None,
                       catch_warnings=_NullCM)
        if name == 'io':
            return mod('io', StringIO=lambda t='': VFile(it, None, 'r+', t),
                       BytesIO=io.BytesIO, TextIOBase=VFile,
                       IOBase=VFile, UnsupportedOperation=
                       io.UnsupportedOperation, TextIOWrapper=VFile,
                       open=vopen(it))
        if name == 'random':
            raise AnalysisError('use of random')
        if name == 'time':
            return mod('time', time=lambda: Sym.fn('time'),
                       perf_counter=lambda: Sym.fn('time'),
                       sleep=lambda x: None,
                       strftime=lambda *a: Opq.fresh('time', str))
        return m
    return f


class _NullCM:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return []

    def __exit__(self, *a):
        return False


def install(it):
    it.memos = []
    it.temps = {}
    it.repo_files = True
    it.strict_dirs = False
    it.stdin = VFile(it, None, 'r', it.cfg.get('stdin', ''), '<stdin>')
    it.stdout = VFile(it, None, 'w', '', '<stdout>')
    it.stderr = VFile(it, None, 'w', '', '<stderr>')

    def abspath(p):
        return posixpath.normpath(posixpath.join('/work', p))
    it.abspath = abspath
    make_builtins(it)
    npm = npmodel.make_numpy()

    def numpy_f(_):
        return npm
    fac = {'math': make_math, 'cmath': make_cmath,
           'functools': make_functools, 'os': make_os, 'glob': make_glob,
           'pathlib': make_pathlib, 'json': make_json, 'yaml': make_yaml,
           'argparse': make_argparse, 'sys': make_sys,
           'logging': make_logging, 'tempfile': make_tempfile,
           'shutil': make_shutil, 'subprocess': make_subprocess,
           'pkgutil': make_pkgutil, 'pkg_resources': make_pkg_resources,
           'importlib': make_importlib, 'rundec': make_rundec,
           'ckmutil': make_ckmutil, 'pylha': make_pylha, 'numpy': numpy_f,
           'errno': host_module('errno')}
    for n in HOST_OK:
        fac[n] = host_module(n)
    it.ext_factory = fac
    it.builtins_mod = mod('builtins', **it.builtins)
    it.ext['builtins'] = it.builtins_mod

    # ---- attribute models
    def a_join(o):
        if not isinstance(o, str):
            return NotImplemented

        def join(xs):
            return o.join(tokens.opq_token(x) if isinstance(x, Opq) else x
                          for x in xs)
        return join

    def a_format(o):
        if not isinstance(o, str):
            return NotImplemented

        def fmt(*a, **k):
            def c(x):
                f = getattr(type(x), '__str__', None)
                if f in it.funcs and type(x).__format__ is object.__format__:
                    return it.call(f, (x,), {})
                return x
            return o.format(*[c(x) for x in a],
                            **{n: c(x) for n, x in k.items()})
        return fmt

    def a_replace(o):
        if type(o) is not str:
            return NotImplemented

        def f(a, b, *n):
            b = tokens.opq_token(b) if isinstance(b, Opq) else b
            a = tokens.opq_token(a) if isinstance(a, Opq) else a
            return o.replace(a, b, *n)
        return f
    it.attr_models = {'join': a_join, 'format': a_format,
                      'replace': a_replace}
