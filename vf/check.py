"""Runner: one property, one tier.  Collects obligations, violations and
inconclusive rules; writes the evidence file and the replay file."""
import argparse
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

from . import symb
from .symb import AnalysisError, Sym, same, lift
from .engine import Engine, PathLimit, show_trace
from .lab import Lab, REPO
from .interp import run_big

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VF_EVIDENCE') or os.path.join(HERE, 'evidence')

TRUSTED = [
    'Python %d.%d ast module (parser)' % sys.version_info[:2],
    'vf/interp.py: transfer functions for Python statements/expressions',
    'vf/models.py, vf/npmodel.py: models of json, yaml, numpy, argparse, '
    'tempfile, subprocess, rundec (uninterpreted), ckmutil (uninterpreted)',
    'vf/symb.py: exact polynomial normal form',
]


def short(x, n=300):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'


class Outcome:
    """result of one abstract run: value or the exception it raised"""

    def __init__(self, value=None, exc=None, lab=None):
        self.value, self.exc, self.lab = value, exc, lab

    @property
    def ok(self):
        return self.exc is None

    def where(self):
        return getattr(self.exc, '_vf_where', '?')

    def show(self):
        if self.exc is None:
            return 'returns ' + short(self.value)
        return 'raises %s(%s) at %s' % (type(self.exc).__name__,
                                        short(self.exc, 160), self.where())


LATE = float(os.environ.get('VF_LATE', '420'))


class Enough(BaseException):
    """a violation is found and the run is late: report it"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.viol = {}
        self.known = {}
        self.incon = []
        self.obligations = 0
        self.rules = {}
        self.partitions = 0
        self.generic = 0
        self.partial = []
        self.funcs = set()
        self.files = set()
        self.samples = []
        self.assumptions = []
        self.minimum = {}
        self.cur = '?'
        self.labs = []
        self.findings = load_findings(prop)

    # ---------------------------------------------------------------- rules
    def rule(self, name):
        return _Rule(self, name)

    FIELDS = ('viol', 'known', 'incon', 'obligations', 'rules', 'partitions',
              'generic', 'partial', 'funcs', 'files', 'samples',
              'assumptions', 'minimum')

    def par(self, jobs, workers=None):
        """run [(rule name, fn)] in forked workers, merge what they found;
        returns the values of the fns"""
        workers = workers or int(os.environ.get('VF_JOBS') or
                                 min(8, os.cpu_count() or 1))
        if workers < 2 or len(jobs) < 2:
            out = []
            for name, fn in jobs:
                v = None
                with self.rule(name):
                    v = fn()
                out.append(v)
            return out
        todo = list(enumerate(jobs))
        vals = [None] * len(jobs)
        res = {}
        running, stop = {}, False
        sys.stdout.flush()
        while todo or running:
            while todo and len(running) < workers:
                i, (name, fn) = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self._child(w, name, fn)
                os.close(w)
                running[r] = (i, pid, name, [])
            rd, _, _ = select.select(list(running), [], [], 5)
            if self.late() and (self.viol or any(
                    x and x[1]['viol'] for x in res.values())):
                for r, (i, pid, name, buf) in running.items():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                todo, running, stop = [], {}, True
                break
            for r in rd:
                b = os.read(r, 1 << 20)
                i, pid, name, buf = running[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    res[i] = pickle.loads(b''.join(buf))
                except Exception as e:
                    res[i] = None
                    self.incon.append('rule %s: worker died' % name)
        for i in sorted(res):
            if res[i] is None:
                continue
            vals[i], d = res[i]
            for f in self.FIELDS:
                a, b = getattr(self, f), d[f]
                if isinstance(a, int):
                    setattr(self, f, a + b)
                elif isinstance(a, list):
                    a.extend(b)
                elif isinstance(a, set):
                    a |= b
                elif f == 'rules':
                    for k, v in b.items():
                        a[k] = a.get(k, 0) + v
                else:
                    for k, v in b.items():
                        a.setdefault(k, v)
        self.samples = self.samples[:12]
        self.assumptions = list(dict.fromkeys(self.assumptions))
        if stop:
            raise Enough
        return vals

    def late(self):
        return time.time() - self.t0 > LATE

    def _child(self, w, name, fn):
        code = 0
        try:
            for f in self.FIELDS:
                setattr(self, f, type(getattr(self, f))())
            v = None
            try:
                with self.rule(name):
                    v = fn()
            except Enough:
                pass
            self.collect()
            d = pickle.dumps((v, {f: getattr(self, f) for f in self.FIELDS}))
            with os.fdopen(w, 'wb') as g:
                g.write(d)
        except BaseException:
            traceback.print_exc()
            code = 1
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)

    def note(self, n=1, rule=None):
        r = rule or self.cur
        self.obligations += n
        self.rules[r] = self.rules.get(r, 0) + n
        if self.viol and self.late():
            raise Enough

    def ok(self, cond, where, what, rule=None, detail=None):
        """one obligation"""
        self.note(1, rule)
        if not cond:
            self.violation(where, what, rule, detail)
        return cond

    def violation(self, where, what, rule=None, detail=None):
        r = rule or self.cur
        key = '%s|%s' % (r, what.split('\n')[0])
        for k in self.findings:
            if k in key:
                self.known[k] = what
                return
        if key not in self.viol:
            self.viol[key] = dict(rule=r, where=where, what=what,
                                  detail=detail)

    def expect_at_least(self, what, got, minimum):
        """guards against vacuous rules"""
        self.minimum[what] = (got, minimum)
        if got < minimum:
            self.incon.append('%s: only %d instances found, %d expected'
                              % (what, got, minimum))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    # ---------------------------------------------------------------- runs
    def lab(self, *a, **k):
        l = Lab(*a, **k).start()
        self.labs.append(l)
        return l

    def collect(self):
        for l in self.labs:
            self.funcs |= l.it.visited_funcs
            self.files |= {os.path.relpath(f, REPO) for f in l.it.consulted}
        self.labs = []

    def run(self, fn):
        """Outcome of fn(); interpreted exceptions become data."""
        try:
            return Outcome(fn())
        except AnalysisError:
            raise
        except (Exception, SystemExit) as e:
            return Outcome(exc=e)

    def explore(self, fn, mode='mixed', limit=256, budget=240, generic=None,
                policy=None, assume=()):
        """yield (trace, Outcome) for every trace partition of fn()"""
        eng = Engine(mode, limit)
        if generic is not None:
            eng.generic_nz = generic
        eng.policy = policy
        for c, v in assume:
            eng.assume(c, v)
        t0 = time.time()
        it = eng.explore(lambda: self.run(fn))
        n = 0
        while True:
            try:
                tr, out = next(it)
            except StopIteration:
                break
            except PathLimit:
                yield from self._partial(eng, fn, budget)
                break
            n += 1
            self.partitions += 1
            yield tr, out
            self.note(0)
            self.collect()
            if time.time() - t0 > budget:
                yield from self._partial(eng, fn, budget)
                break
        self.generic += eng.n_generic

    def _partial(self, eng, fn, budget):
        """more partitions than we can enumerate: base traces + single flips"""
        self.partial.append(self.cur)
        t0 = time.time()
        tried = set()
        for base in (True, False):
            tr, out = eng.once(lambda: self.run(fn), lambda i: base)
            n = len(tr)
            self.partitions += 1
            yield tr, out
            for k in range(n):
                if time.time() - t0 > budget:
                    return
                tr, out = eng.once(lambda: self.run(fn),
                                   lambda i: base != (i == k))
                self.partitions += 1
                yield tr, out
                self.collect()

    # ---------------------------------------------------------------- compare
    def compare(self, exp, got, route, lab=None, trace=(), drop_zero=True,
                where=None):
        """obligation per key: got[key] is identically exp[key]"""
        exp = {k: lift(v) for k, v in exp.items()}
        if drop_zero:
            exp = {k: v for k, v in exp.items() if v.t or v.isnan_}
        keys = set(exp) | set(got)
        cond = show_trace(trace)
        cond = '' if cond == 'always' else ' when ' + short(cond, 300)
        bad = 0
        for k in sorted(keys, key=str):
            self.note()
            if k not in got:
                what = 'coefficient %s is missing' % k
                det = 'expected %s' % short(exp[k])
            elif k not in exp:
                what = 'unexpected coefficient %s' % k
                det = 'value %s' % short(got[k])
            elif not same(exp[k], got[k]):
                what = 'coefficient %s has the wrong value' % k
                det = 'expected %s\n     got %s' % (short(exp[k]),
                                                    short(got[k]))
            else:
                continue
            bad += 1
            if bad <= 25:
                w = where or (lab.writers(str(k)) if lab else []) or ['?']
                self.violation(w if isinstance(w, str) else '; '.join(w),
                               '%s: %s%s' % (route, what, cond), detail=det)
        if bad > 25:
            self.violation('-', '%s: %d wrong coefficients in total'
                           % (route, bad))
        if not bad and exp:
            k = sorted(exp, key=str)[len(exp) // 2]
            self.sample('%s: %s = %s' % (route, k, short(exp[k], 200)))
        return bad == 0

    # ---------------------------------------------------------------- finish
    def finish(self, level, explanation):
        self.collect()
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=level,
            coverage=dict(
                obligations=self.obligations,
                discharged=self.obligations - len(self.viol),
                checker_cmd='python3-vt check.py %s --tier %s'
                % (self.prop, self.tier),
                trusted_base=TRUSTED, explanation=explanation,
                rules=self.rules, trace_partitions=self.partitions,
                generic_conditions=self.generic,
                partially_enumerated=sorted(set(self.partial)),
                functions_analysed=sorted('%s.%s' % f for f in self.funcs),
                files_analysed=sorted(self.files),
                minimum_instances={k: list(v)
                                   for k, v in self.minimum.items()},
                samples=self.samples or ['-']),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.viol))
        if self.incon:
            ev['coverage']['inconclusive'] = self.incon
        if self.viol:
            ev['coverage']['violations'] = list(self.viol.values())[:50]
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, w in self.known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        print('%s: %d obligations over %d rules, %d trace partitions, %d '
              'functions in %d files, %.1f s'
              % (self.prop, self.obligations, len(self.rules),
                 self.partitions, len(self.funcs), len(self.files),
                 time.time() - self.t0))
        for i in self.incon:
            print('ANALYSIS-BROKEN property=%s %s' % (self.prop, i))
        if self.viol:
            rp = os.path.join(EVID, self.prop + '.violation.txt')
            with open(rp, 'w') as f:
                f.write('replay: cd /verif && python3-vt check.py %s --tier '
                        '%s\n\n' % (self.prop, self.tier))
                for v in self.viol.values():
                    f.write('rule:  %(rule)s\nwhere: %(where)s\nwhat:  '
                            '%(what)s\n' % v)
                    if v['detail']:
                        f.write('   %s\n' % v['detail'])
                    f.write('\n')
            for v in list(self.viol.values())[:10]:
                print('  [%s] %s\n      at %s' % (v['rule'],
                                                 short(v['what'], 500),
                                                 short(v['where'], 300)))
                if v['detail']:
                    print('      ' + short(v['detail'], 500))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.incon:
            return 2
        return 0


class _Rule:
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name

    def __enter__(self):
        self.old = self.ctx.cur
        self.ctx.cur = self.name
        self.t0 = time.time()
        return self

    def __exit__(self, t, e, tb):
        ctx = self.ctx
        ctx.collect()
        if os.environ.get('VF_TIME'):
            print('%7.1f s  %s' % (time.time() - self.t0, self.name))
        symb.MODE.jet = False
        symb.ENGINE = None
        ctx.cur = self.old
        if e is None:
            return False
        if isinstance(e, AnalysisError):
            ctx.incon.append('rule %s: %s (%s)'
                             % (self.name, e, getattr(e, '_vf_where', '')))
            if os.environ.get('VF_DEBUG'):
                traceback.print_exception(t, e, tb)
            return True
        if hasattr(e, '_vf_where'):
            # the analysed code raises where the rule expects a value
            ctx.cur = self.name
            ctx.violation(e._vf_where, 'unexpected %s: %s'
                          % (t.__name__, short(e, 200)))
            ctx.cur = self.old
            if os.environ.get('VF_DEBUG'):
                traceback.print_exception(t, e, tb)
            return True
        return False


def load_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s key=' % prop):
                out.append(l.split('key=', 1)[1].split(' :: ')[0].strip())
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(a.property, a.tier, seed)
    mod = importlib.import_module('checks.' + a.property.lower())
    try:
        run_big(mod.run, ctx)
    except Enough:
        pass
    except AnalysisError as e:
        ctx.incon.append('%s (%s)' % (e, getattr(e, '_vf_where', '')))
        if os.environ.get('VF_DEBUG'):
            traceback.print_exc()
    return ctx.finish(getattr(mod, 'LEVEL', 'proof'), mod.__doc__ or '')
