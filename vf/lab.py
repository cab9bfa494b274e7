"""Laboratory: builds an abstract run of the package under analysis with
abstract Standard-Model parameters, model bases and abstract Wilson
coefficients."""
from . import symb
from .symb import Sym, AnalysisError, same, lift
from .engine import Engine
from .interp import Interp, run_big
from .opq import Opq

import os
# VF_REPO: scratch copies, only for testing the checks themselves
REPO = os.environ.get('VF_REPO', '/repo')

POS = {'gamma': False}          # parameters that may have any sign


def param_atoms(names, prefix=''):
    return {k: Sym.atom(prefix + k, positive=POS.get(k, True)) for k in names}


class Lab:
    """params: 'atoms' replaces the default parameter values by abstract
    positive constants named after the keys; None keeps the literals."""

    def __init__(self, params='atoms', **cfg):
        self.cfg = cfg
        self.params = params
        self.user_hook = cfg.pop('on_import', None)
        cfg['on_import'] = self._on_import
        self.it = Interp(REPO, cfg)
        for k in ('strict_dirs', 'optimize'):
            if k in cfg:
                setattr(self.it, k, cfg[k])
        self.defaults = {}
        self.wcxf = None

    def _on_import(self, it, name, m):
        if name == 'wcxf.parameters' and self.params == 'atoms':
            p = m.__dict__.get('p')
            if not isinstance(p, dict):
                raise AnalysisError('wcxf.parameters.p is not a dictionary')
            for k in list(p):
                p[k] = Sym.atom(k, positive=POS.get(k, True))
                self.defaults[k] = p[k]
        if self.user_hook:
            self.user_hook(it, name, m)

    def start(self):
        self.wcxf = self.it.import_module('wcxf')
        return self

    def mod(self, name):
        return self.it.import_module(name)

    def call(self, f, *a, **k):
        return self.it.call(f, tuple(a), k)

    def get(self, o, name):
        return self.it.getattr(o, name)

    def m(self, o, name, *a, **k):
        """method call"""
        return self.it.call(self.it.getattr(o, name), tuple(a), k)

    def writers(self, key, n=3):
        """source positions that store under `key` (or its family)"""
        import os
        best = []
        for k in (key, key.split('_')[0]):
            for f, q, l in self.it.writes.get(k, ()):
                w = '%s:%s in %s' % (os.path.relpath(f, REPO), l, q)
                if w not in best:
                    best.append(w)
        return best[:n]

    # ---- model definitions
    def eft(self, name, sectors=('all',)):
        return self.call(self.wcxf.EFT, name, {s: {} for s in sectors})

    def basis(self, eft, basis, keys, sector='all', **kw):
        secs = {sector: {k: ({'real': True} if isinstance(keys, dict) and
                             keys[k] else {}) for k in keys}}
        return self.call(self.wcxf.Basis, eft, basis, secs, **kw)

    def values(self, atoms):
        """WCxf `values` mapping for {key: Sym}"""
        return {k: (v if v.is_real() else {'Re': v.real, 'Im': v.imag})
                for k, v in atoms.items()}

    def wc(self, eft, basis, scale, atoms):
        return self.call(self.wcxf.WC, eft, basis, scale, self.values(atoms))

    def dict_of(self, wc):
        return dict(self.get(wc, 'dict'))

    def translate(self, eft, b1, b2, atoms, scale=None, parameters=None):
        w = self.wc(eft, b1, SCALE if scale is None else scale, atoms)
        o = self.m(w, 'translate', b2, **(
            {} if parameters is None else {'parameters': parameters}))
        return self.dict_of(o)

    def match(self, e1, b1, e2, b2, atoms, scale=None, parameters=None):
        w = self.wc(e1, b1, SCALE if scale is None else scale, atoms)
        o = self.m(w, 'match', e2, b2, **(
            {} if parameters is None else {'parameters': parameters}))
        return self.dict_of(o)


SCALE = Sym.atom('mu', positive=True)


def wc_atoms(keys, prefix='', npy=False, wc=True):
    """{key: Sym} abstract Wilson coefficients; keys maps to realness."""
    return {k: Sym.atom(prefix + k, real=bool(r), wc=wc, npy=npy)
            for k, r in keys.items()}
