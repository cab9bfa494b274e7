"""Flow-sensitive, interprocedural abstract interpreter for the Python source
under /repo.  The repository is parsed with `ast`; its code is never imported
or executed by the host interpreter.  Scalars are abstract (vf.symb,
vf.opq), containers and objects are the analysis' own heap, everything outside
the repository is replaced by the models in vf.models / vf.npmodel."""
import ast
import builtins
import collections as _cl
import functools as _ft
import operator
import os
import re
import sys
import threading
import types
import warnings
from fractions import Fraction
from . import symb
from .symb import Sym, AnalysisError, keyof, lift
from .opq import Opq, OpqList, is_abstract
from . import npmodel
from .npmodel import NDArr

sys.setrecursionlimit(60000)


_PCT = re.compile(r'%([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])')


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


class _GenKill(BaseException):
    pass


CONTROL = (_Return, _Break, _Continue, _GenKill, AnalysisError,
           KeyboardInterrupt, MemoryError)


_HOF = (map, filter, sorted, min, max, _ft.reduce, _ft.partial,
        _cl.defaultdict)


class Scope:
    __slots__ = ('kind', 'vars', 'locals', 'globals_decl', 'nonlocals',
                 'parent', 'module', 'clscell', 'fn', 'first')

    def __init__(self, kind, module, parent=None, locals_=None):
        self.kind = kind
        self.module = module
        self.parent = parent
        self.vars = {}
        self.locals = locals_ if locals_ is not None else set()
        self.globals_decl = set()
        self.nonlocals = set()
        self.clscell = parent.clscell if parent is not None else None
        self.fn = parent.fn if parent is not None else None
        self.first = parent.first if parent is not None else None


_trees = {}         # (path, source text) -> syntax tree


class FuncInfo:
    __slots__ = ('node', 'scope', 'module', 'defaults', 'kwdefaults',
                 'locals', 'globals_decl', 'nonlocals', 'is_gen', 'qualname',
                 'name', 'body', 'params', 'posonly', 'kwonly', 'vararg',
                 'kwarg', 'is_lambda', 'wrapper')


class _LocalCollector(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.globals = set()
        self.nonlocals = set()
        self.gen = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list + n.bases:
            self.visit(d)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)
    visit_YieldFrom = visit_Yield

    def _comp(self, n):
        # only the first iterable is evaluated in this scope; walrus targets
        # leak into it
        for m in ast.walk(n):
            if isinstance(m, ast.NamedExpr):
                self.names.add(m.target.id)
        self.visit(n.generators[0].iter)
    visit_ListComp = visit_SetComp = visit_DictComp = _comp
    visit_GeneratorExp = _comp

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.names.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.names.add(n.rest)
        self.generic_visit(n)


BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift,
    ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
    ast.BitXor: operator.xor,
}
IBINOPS = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
    ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv,
    ast.Mod: operator.imod, ast.Pow: operator.ipow,
    ast.MatMult: operator.imatmul,
    ast.LShift: operator.ilshift, ast.RShift: operator.irshift,
    ast.BitOr: operator.ior, ast.BitAnd: operator.iand,
    ast.BitXor: operator.ixor,
}

SAFE_BUILTINS = '''
abs all any ascii bin bool bytearray bytes callable chr complex dict divmod
enumerate filter float format frozenset getattr hasattr hash hex id int iter
isinstance issubclass len list map max min next object oct ord pow print
property range repr reversed round set setattr delattr slice sorted
staticmethod classmethod str sum super tuple type vars zip NotImplemented
Ellipsis None True False __debug__ dir
'''.split()


class Interp:
    def __init__(self, repo='/repo', config=None):
        self.repo = repo
        self.modules = {}
        self.ext = {}              # external module models
        self.stubs = {}            # (module, qualname) -> callable
        self.events = []
        self.line = 0
        self.stack = []            # [FuncInfo]
        self.lines = []
        self.optimize = False      # python -O: asserts are skipped
        self.funcs = {}
        self.n_calls = 0
        self.n_nodes = 0
        self.visited_funcs = set()
        self.writes = {}           # string key -> {source positions}
        self.consulted = set()
        self.fuel = 60_000_000
        self.vfs = {}
        self.argv = ['prog']
        self.cfg = config or {}
        self.builtins = {}
        for n in SAFE_BUILTINS:
            if hasattr(builtins, n):
                self.builtins[n] = getattr(builtins, n)
        for n, v in vars(builtins).items():
            if isinstance(v, type) and issubclass(v, BaseException):
                self.builtins[n] = v
        self.sized = set()         # where the number of coefficients is asked
        self.names = ()
        self.builtins['len'] = self.b_len
        from . import models
        models.install(self)

    def b_len(self, x):
        n = len(x)
        if n and isinstance(x, (dict, type({}.keys()), type({}.values()),
                                type({}.items()), list, tuple, set)):
            e = next(iter(x.values() if isinstance(x, dict) else x))
            if isinstance(e, tuple) and len(e) == 2:
                e = e[1]
            if isinstance(e, Sym) or isinstance(e, str) and e in self.names:
                self.sized.add(self.where())
        return n

    # ------------------------------------------------------------ utilities
    def where(self):
        fi = self.stack[-1] if self.stack else None
        if fi is None:
            return '%s:%s' % (getattr(self, 'curmod', '?'), self.line)
        return '%s:%s in %s' % (os.path.relpath(fi.module.__file__, self.repo),
                                self.line, fi.qualname)

    def event(self, kind, *data):
        self.events.append((kind,) + data + (self.where(),))

    def unsupported(self, what):
        raise AnalysisError('unsupported: %s at %s' % (what, self.where()))

    # ------------------------------------------------------------ modules
    def find(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split('.')[0]
        if top != 'wcxf':
            return self.import_ext(name)
        if '.' in name:
            parent = self.import_module(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        path, pkg = self.find(name)
        if path is None:
            raise ModuleNotFoundError("No module named '%s'" % name)
        with open(path) as f:
            src = f.read()
        self.consulted.add(path)
        tree = _trees.get((path, src))
        if tree is None:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, path)
            _trees[path, src] = tree
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = None
        self.modules[name] = m
        sc = Scope('module', m)
        sc.vars = m.__dict__
        saved = self.stack, self.line
        self.stack = []
        self.curmod = path
        try:
            self.block(tree.body, sc)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            self.stack, self.line = saved
        if '.' in name:
            setattr(self.modules[name.rpartition('.')[0]],
                    name.rpartition('.')[2], m)
        h = self.cfg.get('on_import')
        if h is not None:
            h(self, name, m)
        return m

    def import_ext(self, name):
        if name in self.ext:
            return self.ext[name]
        f = self.ext_factory.get(name)
        if f is None:
            if '.' in name:
                parent = self.import_ext(name.rpartition('.')[0])
                sub = vars(parent).get(name.rpartition('.')[2])
                if sub is not None:
                    return sub
            raise AnalysisError('no model for external module %s (%s)'
                                % (name, self.where()))
        m = f(self)
        self.ext[name] = m
        return m

    # ------------------------------------------------------------ names
    def load_name(self, n, sc):
        s = sc
        if n in s.globals_decl:
            return self.load_global(n, s.module)
        if s.kind == 'module':
            return self.load_global(n, s.module)
        if s.kind == 'class':
            if n in s.vars:
                return s.vars[n]
            s = s.parent
        else:
            if n in s.locals:
                if n in s.vars:
                    return s.vars[n]
                raise UnboundLocalError("cannot access local variable '%s' "
                                        "where it is not associated with a "
                                        "value" % n)
            s = s.parent
        while s is not None and s.kind != 'module':
            if s.kind != 'class' and n in s.locals:
                if n in s.vars:
                    return s.vars[n]
                raise NameError("free variable '%s' referenced before "
                                "assignment" % n)
            if n in s.globals_decl:
                break
            s = s.parent
        if n == '__class__' and sc.clscell is not None:
            return sc.clscell['class']
        return self.load_global(n, sc.module)

    def load_global(self, n, module):
        d = module.__dict__
        if n in d and n != '__builtins__':
            return d[n]
        if n in self.builtins:
            return self.builtins[n]
        raise NameError("name '%s' is not defined" % n)

    def store_name(self, n, v, sc):
        if n in sc.globals_decl:
            sc.module.__dict__[n] = v
            return
        if n in sc.nonlocals:
            s = sc.parent
            while s is not None:
                if s.kind not in ('class', 'module') and n in s.locals and \
                        n not in s.nonlocals:
                    s.vars[n] = v
                    return
                s = s.parent
            raise AnalysisError('nonlocal %s unresolved' % n)
        sc.vars[n] = v

    def del_name(self, n, sc):
        d = sc.module.__dict__ if n in sc.globals_decl else sc.vars
        if n not in d:
            raise (UnboundLocalError if sc.kind == 'function' else
                   NameError)(n)
        del d[n]

    # ------------------------------------------------------------ statements
    def block(self, stmts, sc):
        for s in stmts:
            self.stmt(s, sc)

    def stmt(self, s, sc):
        self.n_nodes += 1
        self.fuel -= 1
        if self.fuel < 0:
            raise AnalysisError('analysis budget exhausted at %s'
                                % self.where())
        self.line = s.lineno
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsupported(type(s).__name__)
        try:
            m(s, sc)
        except CONTROL:
            raise
        except BaseException as e:
            if not hasattr(e, '_vf_where'):
                try:
                    self.line = s.lineno
                    e._vf_where = self.where()
                except Exception:
                    pass
            raise

    def s_Expr(self, s, sc):
        self.ev(s.value, sc)

    def s_Pass(self, s, sc):
        pass

    def s_Return(self, s, sc):
        raise _Return(self.ev(s.value, sc) if s.value else None)

    def s_Break(self, s, sc):
        raise _Break()

    def s_Continue(self, s, sc):
        raise _Continue()

    def s_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, sc), sc)
        if sc.kind in ('class', 'module') and isinstance(s.target, ast.Name):
            ann = sc.vars.setdefault('__annotations__', {})
            try:
                ann[s.target.id] = self.ev(s.annotation, sc)
            except CONTROL:
                raise
            except BaseException:
                ann[s.target.id] = 'unknown'

    def s_AugAssign(self, s, sc):
        t = s.target
        op = IBINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, sc)
            v = self.ev(s.value, sc)
            self.store_name(t.id, self.binop(type(s.op), old, v, op), sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            old = self.getattr(o, t.attr)
            v = self.ev(s.value, sc)
            self.setattr(o, t.attr, self.binop(type(s.op), old, v, op))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            i = self.ev(t.slice, sc)
            old = self.getitem(o, i)
            v = self.ev(s.value, sc)
            self.setitem(o, i, self.binop(type(s.op), old, v, op))
        else:
            self.unsupported('augmented assignment target')

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [k for k, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                n_after = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    raise ValueError('not enough values to unpack')
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, sc)
                self.assign(t.elts[k].value, vals[k:len(vals) - n_after], sc)
                if n_after:
                    for e, x in zip(t.elts[k + 1:], vals[-n_after:]):
                        self.assign(e, x, sc)
            else:
                if len(vals) != len(t.elts):
                    raise ValueError('too many values to unpack' if
                                     len(vals) > len(t.elts) else
                                     'not enough values to unpack')
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            self.setitem(o, self.ev(t.slice, sc), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iterate(v)), sc)
        else:
            self.unsupported('assignment target')

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.del_name(t.id, sc)
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, sc), t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, sc)
                i = self.ev(t.slice, sc)
                self.host(operator.delitem, (o, i), {})
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    self.s_Delete(ast.Delete(targets=[e]), sc)

    def truth(self, v):
        if v is True or v is False:
            return v
        return bool(v)

    def s_If(self, s, sc):
        if self.truth(self.ev(s.test, sc)):
            self.block(s.body, sc)
        else:
            self.block(s.orelse, sc)

    def s_While(self, s, sc):
        n = 0
        broke = False
        while self.truth(self.ev(s.test, sc)):
            n += 1
            if n > 200000:
                raise AnalysisError('loop bound exceeded at %s' % self.where())
            try:
                self.block(s.body, sc)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(s.orelse, sc)

    def s_For(self, s, sc):
        it = self.iterate(self.ev(s.iter, sc))
        broke = False
        for v in it:
            self.assign(s.target, v, sc)
            try:
                self.block(s.body, sc)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(s.orelse, sc)

    def s_With(self, s, sc):
        self.with_items(s.items, s.body, sc)

    def with_items(self, items, body, sc):
        if not items:
            self.block(body, sc)
            return
        it = items[0]
        cm = self.ev(it.context_expr, sc)
        enter = self.getattr(cm, '__enter__')
        ex = self.getattr(cm, '__exit__')
        v = self.call(enter, (), {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, sc)
        try:
            self.with_items(items[1:], body, sc)
        except (AnalysisError, _GenKill):
            raise
        except (_Return, _Break, _Continue):
            self.call(ex, (None, None, None), {})
            raise
        except BaseException as e:
            if not self.truth(self.call(ex, (type(e), e, e.__traceback__),
                                        {})):
                raise
        else:
            self.call(ex, (None, None, None), {})

    def s_Raise(self, s, sc):
        if s.exc is None:
            e = self.current_exc[-1] if self.current_exc else None
            if e is None:
                raise RuntimeError('No active exception to reraise')
            raise e
        e = self.ev(s.exc, sc)
        if isinstance(e, type):
            e = self.call(e, (), {})
        if not isinstance(e, BaseException):
            raise TypeError('exceptions must derive from BaseException')
        if s.cause is not None:
            c = self.ev(s.cause, sc)
            raise e from c
        raise e

    current_exc = []

    def s_Try(self, s, sc):
        try:
            try:
                self.block(s.body, sc)
            except CONTROL:
                raise
            except BaseException as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = isinstance(e, self.ev(h.type, sc))
                    if ok:
                        if h.name:
                            self.store_name(h.name, e, sc)
                        self.current_exc.append(e)
                        try:
                            self.block(h.body, sc)
                        finally:
                            self.current_exc.pop()
                            if h.name:
                                sc.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, sc)
        except AnalysisError:
            raise
        except BaseException:
            # the finally block runs on every exit
            self.block(s.finalbody, sc)
            raise
        else:
            self.block(s.finalbody, sc)

    def s_Assert(self, s, sc):
        if self.optimize:
            return
        if not self.truth(self.ev(s.test, sc)):
            msg = self.ev(s.msg, sc) if s.msg else None
            raise AssertionError(msg) if s.msg else AssertionError()

    def s_Global(self, s, sc):
        sc.globals_decl.update(s.names)

    def s_Nonlocal(self, s, sc):
        sc.nonlocals.update(s.names)

    def s_Import(self, s, sc):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, sc)
            else:
                top = a.name.split('.')[0]
                self.store_name(top, self.import_module(top), sc)

    def s_ImportFrom(self, s, sc):
        base = s.module or ''
        if s.level:
            pkg = sc.module.__package__
            for _ in range(s.level - 1):
                pkg = pkg.rpartition('.')[0]
            base = pkg + ('.' + base if base else '')
        m = self.import_module(base)
        for a in s.names:
            if a.name == '*':
                names = getattr(m, '__all__', None)
                if names is None:
                    names = [n for n in m.__dict__ if not n.startswith('_')]
                for n in list(names):
                    self.store_name(n, getattr(m, n), sc)
                continue
            if hasattr(m, a.name):
                v = getattr(m, a.name)
            else:
                try:
                    v = self.import_module(base + '.' + a.name)
                except ModuleNotFoundError:
                    raise ImportError("cannot import name '%s' from '%s'"
                                      % (a.name, base))
            self.store_name(a.asname or a.name, v, sc)

    def s_FunctionDef(self, s, sc):
        decs = [self.ev(d, sc) for d in s.decorator_list]
        f = self.make_function(s, sc, s.name)
        for d in reversed(decs):
            f = self.call(d, (f,), {})
        self.store_name(s.name, f, sc)

    def s_ClassDef(self, s, sc):
        decs = [self.ev(d, sc) for d in s.decorator_list]
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.ev(b.value, sc)))
            else:
                bases.append(self.ev(b, sc))
        kw = {}
        for k in s.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, sc))
            else:
                kw[k.arg] = self.ev(k.value, sc)
        bases = types.resolve_bases(tuple(bases))
        meta, ns, kw = types.prepare_class(s.name, bases, kw)
        csc = Scope('class', sc.module, sc)
        csc.vars = ns
        cell = {}
        csc.clscell = cell
        ns['__module__'] = sc.module.__name__
        ns['__qualname__'] = s.name
        d = ast.get_docstring(s, clean=False)
        if d is not None:
            ns['__doc__'] = d
        lc = _LocalCollector()
        for st in s.body:
            lc.visit(st)
        csc.globals_decl |= lc.globals
        self.block(s.body, csc)
        cls = meta(s.name, bases, ns, **kw)
        cell['class'] = cls
        for d in reversed(decs):
            cls = self.call(d, (cls,), {})
        self.store_name(s.name, cls, sc)

    def s_Match(self, s, sc):
        subj = self.ev(s.subject, sc)
        for c in s.cases:
            if self.match_pat(c.pattern, subj, sc) and (
                    c.guard is None or self.truth(self.ev(c.guard, sc))):
                self.block(c.body, sc)
                return

    def match_pat(self, p, v, sc):
        if isinstance(p, ast.MatchValue):
            return self.truth(v == self.ev(p.value, sc))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, sc):
                return False
            if p.name:
                self.store_name(p.name, v, sc)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, sc) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            star = [k for k, q in enumerate(p.patterns)
                    if isinstance(q, ast.MatchStar)]
            if star:
                k = star[0]
                after = len(p.patterns) - k - 1
                if len(v) < len(p.patterns) - 1:
                    return False
                parts = list(v[:k]) + [list(v[k:len(v) - after])] + \
                    list(v[len(v) - after:])
            else:
                if len(v) != len(p.patterns):
                    return False
                parts = list(v)
            for q, x in zip(p.patterns, parts):
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        self.store_name(q.name, x, sc)
                elif not self.match_pat(q, x, sc):
                    return False
            return True
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, sc)
            if not self.m_isinstance(v, cls):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and cls in (
                        int, float, str, bool, bytes, list, dict, tuple, set):
                    return self.match_pat(p.patterns[0], v, sc)
                self.unsupported('positional class pattern')
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not hasattr(v, a) or \
                        not self.match_pat(q, self.getattr(v, a), sc):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            ks = [self.ev(k, sc) for k in p.keys]
            for k, q in zip(ks, p.patterns):
                if k not in v or not self.match_pat(q, v[k], sc):
                    return False
            if p.rest:
                self.store_name(p.rest, {k: x for k, x in v.items()
                                         if k not in ks}, sc)
            return True
        self.unsupported('match pattern')

    # ------------------------------------------------------------ functions
    def make_function(self, node, sc, name):
        fi = FuncInfo()
        fi.node = node
        fi.scope = sc
        fi.module = sc.module
        fi.name = name
        prefix = ''
        if sc.kind == 'class':
            prefix = sc.vars.get('__qualname__', '') + '.'
        elif sc.kind == 'function' and sc.fn is not None:
            prefix = sc.fn.qualname + '.'
        fi.qualname = prefix + name
        a = node.args
        fi.posonly = [x.arg for x in a.posonlyargs]
        fi.params = fi.posonly + [x.arg for x in a.args]
        fi.kwonly = [x.arg for x in a.kwonlyargs]
        fi.vararg = a.vararg.arg if a.vararg else None
        fi.kwarg = a.kwarg.arg if a.kwarg else None
        fi.defaults = [self.ev(d, sc) for d in a.defaults]
        fi.kwdefaults = {k: self.ev(d, sc) for k, d in
                         zip(fi.kwonly, a.kw_defaults) if d is not None}
        fi.is_lambda = isinstance(node, ast.Lambda)
        lc = getattr(node, '_vf_lc', None)
        if lc is None:
            lc = _LocalCollector()
            if fi.is_lambda:
                lc.visit(node.body)
            else:
                for st in node.body:
                    lc.visit(st)
            node._vf_lc = lc
        fi.locals = (lc.names | set(fi.params) | set(fi.kwonly) |
                     {x for x in (fi.vararg, fi.kwarg) if x}) \
            - lc.globals - lc.nonlocals
        fi.globals_decl = lc.globals
        fi.nonlocals = lc.nonlocals
        fi.is_gen = lc.gen
        interp = self

        def wrapper(*args, **kwargs):
            return interp.call_function(fi, args, kwargs)
        wrapper.__name__ = name
        wrapper.__qualname__ = fi.qualname
        wrapper.__module__ = sc.module.__name__
        wrapper.__doc__ = None if fi.is_lambda else ast.get_docstring(
            node, clean=False)
        try:
            wrapper.__defaults__ = None
        except Exception:
            pass
        ann = {} if fi.is_lambda else {x.arg: x.annotation for x in
               a.posonlyargs + a.args + a.kwonlyargs if x.annotation}
        if not fi.is_lambda and node.returns is not None:
            ann['return'] = node.returns
        for k, e in ann.items():
            try:
                wrapper.__annotations__[k] = self.ev(e, sc)
            except Exception:
                pass           # annotations do not influence a run
        fi.wrapper = wrapper
        self.funcs[wrapper] = fi
        return wrapper

    def bind(self, fi, args, kwargs):
        v = {}
        n = len(fi.params)
        nm = fi.name
        if len(args) > n:
            if fi.vararg is None:
                raise TypeError('%s() takes %d positional arguments but %d '
                                'were given' % (nm, n, len(args)))
            v[fi.vararg] = tuple(args[n:])
        elif fi.vararg:
            v[fi.vararg] = ()
        for p, x in zip(fi.params, args):
            v[p] = x
        extra = {}
        for k, x in kwargs.items():
            if k in fi.params and k not in fi.posonly or k in fi.kwonly:
                if k in v:
                    raise TypeError("%s() got multiple values for argument "
                                    "'%s'" % (nm, k))
                v[k] = x
            elif fi.kwarg:
                extra[k] = x
            else:
                raise TypeError("%s() got an unexpected keyword argument '%s'"
                                % (nm, k))
        if fi.kwarg:
            v[fi.kwarg] = extra
        nd = len(fi.defaults)
        for k, p in enumerate(fi.params):
            if p not in v:
                j = k - (n - nd)
                if j >= 0:
                    v[p] = fi.defaults[j]
                else:
                    raise TypeError("%s() missing required positional "
                                    "argument: '%s'" % (nm, p))
        for p in fi.kwonly:
            if p not in v:
                if p in fi.kwdefaults:
                    v[p] = fi.kwdefaults[p]
                else:
                    raise TypeError("%s() missing required keyword-only "
                                    "argument: '%s'" % (nm, p))
        return v

    def call_function(self, fi, args, kwargs):
        self.n_calls += 1
        st = self.stubs.get((fi.module.__name__, fi.qualname))
        if st is not None:
            return st(*args, **kwargs)
        v = self.bind(fi, args, kwargs)
        sc = Scope('function', fi.module, fi.scope, fi.locals)
        sc.vars = v
        sc.globals_decl = set(fi.globals_decl)
        sc.nonlocals = set(fi.nonlocals)
        sc.fn = fi
        sc.first = v.get(fi.params[0]) if fi.params else (
            v[fi.vararg][0] if fi.vararg and v[fi.vararg] else None)
        if len(self.stack) > 900:
            raise RecursionError('maximum recursion depth exceeded')
        if fi.is_gen:
            return IGenerator(self, fi, sc)
        return self.run_body(fi, sc)

    def run_body(self, fi, sc):
        self.stack.append(fi)
        self.lines.append(self.line)
        self.visited_funcs.add((fi.module.__name__, fi.qualname))
        try:
            if fi.is_lambda:
                self.line = fi.node.lineno
                return self.ev(fi.node.body, sc)
            self.block(fi.node.body, sc)
        except _Return as r:
            return r.v
        finally:
            self.stack.pop()
            self.line = self.lines.pop()
        return None

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, types.FunctionType):
            if f in self.funcs:
                return self.call_function(self.funcs[f], args, kwargs)
            return f(*args, **kwargs)       # model function
        if isinstance(f, types.MethodType):
            g = f.__func__
            if g in self.funcs:
                return self.call_function(self.funcs[g], (f.__self__,) + args,
                                          kwargs)
            return f(*args, **kwargs)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kwargs)
        if isinstance(f, Opq):
            self.event('opaque-call', f, args, kwargs)
            return Opq(('call', f.vf_key(), keyof(args), keyof(kwargs)))
        return self.host(f, args, kwargs)

    def host(self, f, args, kwargs):
        if any(f is h for h in _HOF):
            args = tuple(self.cb(a) for a in args)
            kwargs = {k: self.cb(v) for k, v in kwargs.items()}
        try:
            return f(*args, **kwargs)
        except (TypeError, AttributeError) as e:
            tb = e.__traceback__
            if tb is not None and tb.tb_next is None and \
                    not hasattr(e, '_vf_where') and \
                    f not in (operator.delitem,) and (
                        any(is_abstract(a) for a in args) or
                        any(is_abstract(a) for a in kwargs.values())):
                slf = getattr(f, '__self__', None)
                if isinstance(slf, (dict, list, set, tuple)) and \
                        not isinstance(slf, types.ModuleType):
                    raise
                if not callable(f):
                    raise
                raise AnalysisError('host call %r on abstract arguments '
                                    'failed: %s at %s' % (f, e, self.where()))
            raise

    def cb(self, f):
        if isinstance(f, (type, types.BuiltinFunctionType)):
            return self.first_class.get(f, f)
        return f

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, type) and name == '__subclasses__':
            self.unsupported('__subclasses__')
        h = self.attr_models.get(name)
        if h is not None:
            r = h(o)
            if r is not NotImplemented:
                return r
        try:
            return getattr(o, name)
        except AttributeError:
            if isinstance(o, (Sym, NDArr)):
                import numpy as np
                host = np.ndarray if isinstance(o, NDArr) else \
                    {('f', True): np.float64, ('c', True): np.complex128,
                     ('f', False): float}.get((o.kind, bool(o.npy)), complex)
                if hasattr(host, name):
                    self.unsupported('attribute %s of %s'
                                     % (name, host.__name__))
            raise

    def setattr(self, o, name, v):
        if isinstance(o, types.ModuleType) and o.__name__ in self.ext:
            self.event('ext-setattr', o.__name__, name)
        setattr(o, name, v)

    def getitem(self, o, i):
        if isinstance(o, (list, tuple, str)) and isinstance(i, Sym):
            raise TypeError('indices must be integers or slices, not float')
        if isinstance(o, (list, tuple, str)) and isinstance(i, NDArr):
            i = int(i)
        return o[i]

    def setitem(self, o, i, v):
        if type(i) is str:
            self.note_write(i, self.line)
        o[i] = v

    def note_write(self, key, line):
        fi = self.stack[-1] if self.stack else None
        w = self.writes.get(key)
        if w is None:
            w = self.writes[key] = {}
        w[(fi.module.__file__ if fi else getattr(self, 'curmod', '?'),
           fi.qualname if fi else '<module>', line)] = None

    def iterate(self, v):
        if isinstance(v, (Sym,)):
            raise TypeError("'float' object is not iterable")
        return iter(v)

    # ------------------------------------------------------------ expressions
    def ev(self, e, sc):
        return getattr(self, 'e_' + type(e).__name__, self._noexpr)(e, sc)

    def _noexpr(self, e, sc):
        self.unsupported(type(e).__name__)

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, float):
            return Sym.const(v)
        if isinstance(v, complex):
            return symb.mkcomplex(v)
        return v

    def e_Name(self, e, sc):
        return self.load_name(e.id, sc)

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        s = sc
        while s.kind == 'comp':
            s = s.parent
        self.store_name(e.target.id, v, s)
        return v

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_List(self, e, sc):
        return self.elts(e.elts, sc)

    def e_Set(self, e, sc):
        return set(self.elts(e.elts, sc))

    def elts(self, l, sc):
        out = []
        for x in l:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, sc)))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, sc)
                d.update(m)
            else:
                kk = self.ev(k, sc)
                if type(kk) is str:
                    self.note_write(kk, k.lineno)
                d[kk] = self.ev(v, sc)
        return d

    def binop(self, op, a, b, fn=None):
        if op is ast.Div or op is ast.Pow:
            if isinstance(a, (int, Fraction)) and isinstance(
                    b, (int, Fraction)):
                if op is ast.Div:
                    if b == 0:
                        raise ZeroDivisionError('division by zero')
                    return Sym.const(Fraction(a) / Fraction(b))
                if b < 0:
                    return Sym.const(Fraction(a)).power(b)
                return a ** b
        f = fn or BINOPS[op]
        if isinstance(a, str) and op is ast.Mod:
            return self.str_mod(a, b)
        try:
            r = f(a, b)
        except TypeError as e:
            if (isinstance(a, Opq) or isinstance(b, Opq)) and \
                    e.__traceback__.tb_next is None:
                oa = a.typ if isinstance(a, Opq) else object
                ob = b.typ if isinstance(b, Opq) else object
                if oa is None or ob is None:
                    raise AnalysisError('operation %s on opaque value at %s'
                                        % (op.__name__, self.where()))
            raise
        if isinstance(r, float):
            raise AnalysisError('host float appeared at %s' % self.where())
        return r

    def str_mod(self, a, b):
        args = b if isinstance(b, tuple) else (b,)
        if isinstance(b, dict) or not any(
                isinstance(x, (Sym, Opq)) for x in args):
            return a % b
        it = iter(args)
        out = []
        pos = 0
        for m in _PCT.finditer(a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(2) == '%':
                out.append('%')
                continue
            x = next(it)
            if isinstance(x, Sym):
                c = m.group(2)
                if c in 'di':
                    out.append('%d' % int(x))
                else:
                    out.append(format(x, (m.group(1) + c) if c not in 'sr'
                                      else ''))
            elif isinstance(x, Opq):
                out.append(format(x, ''))
            else:
                out.append(('%' + m.group(1) + m.group(2)) % (x,))
        out.append(a[pos:])
        return ''.join(out)

    def e_BinOp(self, e, sc):
        a = self.ev(e.left, sc)
        b = self.ev(e.right, sc)
        return self.binop(type(e.op), a, b)

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, sc)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t or not isand and t:
                return v
        return v

    def e_IfExp(self, e, sc):
        return self.ev(e.body if self.truth(self.ev(e.test, sc)) else e.orelse,
                       sc)

    def e_Compare(self, e, sc):
        a = self.ev(e.left, sc)
        r = True
        for k, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(x, sc)
            r = self.compare(op, a, b)
            if k < len(e.ops) - 1 and not self.truth(r):
                return r
            a = b
        return r

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return a is b
        if t is ast.IsNot:
            return a is not b
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.contains(b, a)
        if t is ast.Eq:
            return a == b
        if t is ast.NotEq:
            return a != b
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
             ast.GtE: operator.ge}[t]
        return f(a, b)

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, Opq):
            return symb.decide(('contains', c, x.vf_key()))
        if isinstance(c, (list, tuple)) or isinstance(c, (dict, set)):
            return x in c
        return x in c

    def e_Call(self, e, sc):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args and not e.keywords:
            f = self.load_name('super', sc)
            if f is super:
                return super(sc.clscell['class'], sc.first)
        if isinstance(e.func, ast.Name) and e.func.id in (
                'locals', 'globals') and not e.args:
            return sc.vars if e.func.id == 'locals' else sc.module.__dict__
        f = self.ev(e.func, sc)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, sc)))
            else:
                args.append(self.ev(a, sc))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.ev(k.value, sc)
                if not hasattr(m, 'keys'):
                    raise TypeError('argument after ** must be a mapping, not '
                                    '%s' % type(m).__name__)
                for kk in m.keys():
                    if not isinstance(kk, str):
                        if isinstance(kk, Opq):
                            self.unsupported('** of opaque keys')
                        raise TypeError('keywords must be strings')
                    if kk in kw:
                        raise TypeError('got multiple values for keyword '
                                        'argument %r' % kk)
                    kw[kk] = m[kk]
            else:
                kw[k.arg] = self.ev(k.value, sc)
        self.line = e.lineno
        return self.call(f, tuple(args), kw)

    def e_Attribute(self, e, sc):
        o = self.ev(e.value, sc)
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, sc):
        o = self.ev(e.value, sc)
        return self.getitem(o, self.ev(e.slice, sc))

    def e_Slice(self, e, sc):
        f = lambda x: None if x is None else self.ev(x, sc)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Lambda(self, e, sc):
        return self.make_function(e, sc, '<lambda>')

    def e_JoinedStr(self, e, sc):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                out.append(self.e_FormattedValue(v, sc))
        return ''.join(format(x, '') if isinstance(x, Opq) else x
                       for x in out)

    def e_FormattedValue(self, v, sc):
        x = self.ev(v.value, sc)
        spec = self.ev(v.format_spec, sc) if v.format_spec else ''
        if v.conversion == 114:
            x = self.call(repr, (x,), {})
        elif v.conversion == 115:
            x = self.call(str, (x,), {})
        if type(x).__format__ is object.__format__ and not spec:
            return self.call(str, (x,), {})
        return self.call(format, (x, spec), {})

    def comp(self, e, sc, add):
        first = self.iterate(self.ev(e.generators[0].iter, sc))
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        cs = Scope('comp', sc.module, sc, names)

        def rec(k, it):
            g = e.generators[k]
            for v in it:
                self.assign(g.target, v, cs)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.ev(c, cs)):
                        ok = False
                        break
                if not ok:
                    continue
                if k + 1 < len(e.generators):
                    rec(k + 1, self.iterate(
                        self.ev(e.generators[k + 1].iter, cs)))
                else:
                    add(cs)
        rec(0, first)

    def e_ListComp(self, e, sc):
        out = []
        self.comp(e, sc, lambda s: out.append(self.ev(e.elt, s)))
        return out

    def e_SetComp(self, e, sc):
        out = set()
        self.comp(e, sc, lambda s: out.add(self.ev(e.elt, s)))
        return out

    def e_DictComp(self, e, sc):
        out = {}

        def add(s):
            k = self.ev(e.key, s)
            if type(k) is str:
                self.note_write(k, e.lineno)
            out[k] = self.ev(e.value, s)
        self.comp(e, sc, add)
        return out

    def e_GeneratorExp(self, e, sc):
        # lazily evaluated
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        cs = Scope('comp', sc.module, sc, names)
        first = self.iterate(self.ev(e.generators[0].iter, sc))
        interp = self

        def rec(k, it):
            g = e.generators[k]
            for v in it:
                interp.assign(g.target, v, cs)
                ok = True
                for c in g.ifs:
                    if not interp.truth(interp.ev(c, cs)):
                        ok = False
                        break
                if not ok:
                    continue
                if k + 1 < len(e.generators):
                    yield from rec(k + 1, interp.iterate(
                        interp.ev(e.generators[k + 1].iter, cs)))
                else:
                    yield interp.ev(e.elt, cs)
        return rec(0, first)

    def e_Starred(self, e, sc):
        self.unsupported('starred expression')

    def e_Yield(self, e, sc):
        g = _curgen.gen
        if g is None:
            self.unsupported('yield')
        v = self.ev(e.value, sc) if e.value else None
        return g.do_yield(v)

    def e_YieldFrom(self, e, sc):
        g = _curgen.gen
        it = self.iterate(self.ev(e.value, sc))
        while True:
            try:
                v = next(it)
            except StopIteration as s:
                return s.value
            g.do_yield(v)

    # ------------------------------------------------------------ isinstance
    def m_isinstance(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.m_isinstance(v, c) for c in cls)
        import numbers
        if type(cls) is types.UnionType:
            return any(self.m_isinstance(v, c) for c in cls.__args__)
        if isinstance(v, Sym):
            if cls is object:
                return True
            if cls is float:
                return v.kind == 'f'
            if cls is complex:
                return v.kind == 'c'
            if cls in (numbers.Number, numbers.Complex):
                return True
            if cls in (numbers.Real,):
                return v.kind == 'f'
            if isinstance(cls, type) and issubclass(cls, npmodel.NpGeneric):
                if not v.npy:
                    return False
                t = npmodel.NpFloat if v.kind == 'f' else npmodel.NpComplex
                return issubclass(t, cls)
            return isinstance(v, cls) if cls is Sym else False
        if isinstance(v, Opq):
            if cls is object:
                return True
            if v.typ is not None:
                if isinstance(v.typ, type) and isinstance(cls, type):
                    return issubclass(v.typ, cls)
            return symb.decide(('isinstance', v.vf_key(), cls.__name__))
        if cls is float or cls is complex:
            return isinstance(v, cls)
        return isinstance(v, cls)


class _CurGen(threading.local):
    gen = None


_curgen = _CurGen()


class IGenerator:
    """Interpreted generator (coroutine on its own thread; strictly
    alternating with its consumer)."""

    def __init__(self, interp, fi, sc):
        self.interp, self.fi, self.sc = interp, fi, sc
        self.state = 'new'
        self.to_gen = threading.Semaphore(0)
        self.to_main = threading.Semaphore(0)
        self.msg = None
        self.inbox = None
        self.thread = None
        self._closed = False

    def _run(self):
        _curgen.gen = self
        self.to_gen.acquire()
        it = self.interp
        saved = it.stack, it.line
        try:
            self._consume_inbox()
            r = it.run_body(self.fi, self.sc)
            self.msg = ('return', r)
        except _GenKill:
            self.msg = ('return', None)
        except BaseException as e:
            self.msg = ('raise', e)
        self.state = 'done'
        self.to_main.release()

    def _consume_inbox(self):
        k, v = self.inbox
        if k == 'throw':
            raise v
        if k == 'kill':
            raise _GenKill()
        return v

    def do_yield(self, v):
        it = self.interp
        saved_stack, saved_lines, line = list(it.stack), list(it.lines), \
            it.line
        self.msg = ('yield', v)
        self.to_main.release()
        self.to_gen.acquire()
        it.stack[:] = saved_stack
        it.lines[:] = saved_lines
        it.line = line
        return self._consume_inbox()

    def _resume(self, inbox):
        if self.state == 'done':
            if inbox[0] == 'throw':
                raise inbox[1]
            raise StopIteration
        it = self.interp
        saved = list(it.stack), list(it.lines), it.line
        if self.thread is None:
            if inbox[0] == 'throw':
                self.state = 'done'
                raise inbox[1]
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
        self.inbox = inbox
        self.to_gen.release()
        self.to_main.acquire()
        it.stack[:], it.lines[:], it.line = saved
        k, v = self.msg
        if k == 'yield':
            return v
        if k == 'raise':
            raise v
        e = StopIteration(v)
        raise e

    def __iter__(self):
        return self

    def __next__(self):
        return self._resume(('send', None))

    def send(self, v):
        return self._resume(('send', v))

    def throw(self, t, v=None, tb=None):
        e = t if isinstance(t, BaseException) else (
            v if isinstance(v, BaseException) else t())
        return self._resume(('throw', e))

    def close(self):
        if self.state != 'done' and self.thread is not None:
            try:
                self._resume(('throw', GeneratorExit()))
            except (StopIteration, GeneratorExit):
                pass
        self.state = 'done'


def run_big(fn, *a, **k):
    """Run fn on a thread with a large stack."""
    res = {}

    def go():
        try:
            res['v'] = fn(*a, **k)
        except BaseException as e:
            res['e'] = e
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    threading.stack_size(16 * 1024 * 1024)
    t.join()
    if 'e' in res:
        raise res['e']
    return res['v']
