"""Scenarios: written once, run symbolically (obligations decided by z3) and on the real code (replays)."""
import builtins
import hashlib
import json
import math
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as np

from . import terms as tm
from . import smt, explore
from .terms import Unsupported, ZERO, const
from .explore import Explorer, PathInfeasible, PathLimit, CUR

RTOL, ATOL = 2e-6, 1e-9


class CheckFailed(Exception):
    pass


def sample_value(name, meta, seed):
    """deterministic 'generic' value of an input"""
    h = hashlib.sha256(('%s|%s' % (seed, name)).encode()).digest()
    u = int.from_bytes(h[:4], 'big') / 2.0 ** 32
    sgn = -1 if h[4] & 1 else 1
    sort, lo, hi = meta.get('sort', 'Real'), meta.get('lo'), meta.get('hi')
    if sort == 'Bool':
        return bool(h[5] & 1)
    if sort == 'Int':
        lo = -3 if lo is None else lo
        hi = lo + 6 if hi is None else hi
        return Fraction(lo + h[6] % (hi - lo + 1))
    if lo is None and hi is None:
        return sgn * (Fraction(1, 4) + Fraction(int(u * 56), 16))
    lo_, hi_ = (Fraction(lo) if lo is not None else None), (Fraction(hi) if hi is not None else None)
    if lo_ is None:
        return hi_ - Fraction(1, 8) - Fraction(int(u * 56), 16)
    if hi_ is None:
        return lo_ + Fraction(1, 8) + Fraction(int(u * 56), 16)
    return lo_ + (hi_ - lo_) * (Fraction(1, 64) + Fraction(int(u * 62), 64))


class Base(object):
    def __init__(self, name, params, tier):
        self.case, self.params, self.tier = name, params, tier
        self.meta = {}
        self.out_dir = None
        self._finding = None

    def finding(self, key):
        """obligations recorded inside carry a known-finding key"""
        h = self

        class C(object):
            def __enter__(self):
                self.old, h._finding = h._finding, key

            def __exit__(self, *a):
                h._finding = self.old
                return False
        return C()

    # names of array elements
    @staticmethod
    def el(name, idx):
        return '%s[%s]' % (name, ','.join(str(i) for i in idx))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]


# ------------------------------------------------------------------------------------------------ symbolic mode
class SymH(Base):
    symbolic = True

    def __init__(self, name, params, tier, loader_args):
        Base.__init__(self, name, params, tier)
        from . import npf, spf, loader
        self.npf = npf
        self.np, self.sp = npf.NP, spf.SPARSE
        self.loader = loader.Loader(loader_args.get('stubs'), out='/nonexistent-scratch')
        self.obl = []

    def mod(self, name):
        return self.loader.find(name)

    def stub(self, name, m):
        self.loader.stubs[name] = m

    def _var(self, name, sort='Real', lo=None, hi=None):
        self.meta[name] = {'sort': sort, 'lo': lo, 'hi': hi}
        v = tm.var(name, 'Int') if sort == 'Int' else tm.var(name)
        c = explore.cur()
        tm.NONNEG.discard(name)
        if lo is not None:
            c.assume(tm.cmp('<=', tm.sub(const(Fraction(lo)), v)))
        if hi is not None:
            c.assume(tm.cmp('<=', tm.sub(v, const(Fraction(hi)))))
        if lo is not None and lo >= 0:
            tm.NONNEG.add(name)
        return v

    def _arr(self, name, shape, f, k):
        from .arr import wrap
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = f(self.el(name, i))
        return wrap(o, k)

    def real(self, name, shape=None, lo=None, hi=None, pos=False, nonzero=False):
        from .sym import Sym

        def mk(n):
            v = self._var(n, 'Real', 0 if pos and lo is None else lo, hi)
            if pos:
                explore.cur().assume(tm.cmp('<', tm.neg(v)))
                self.meta[n]['pos'] = True
            if nonzero:
                explore.cur().assume(tm.bnot(tm.cmp('==', v)))
            return Sym(v, ZERO, 'f')
        return mk(name) if shape is None else self._arr(name, shape, mk, 'f')

    def cplx(self, name, shape=None, lo=None, hi=None, nonzero=False):
        from .sym import Sym

        def mk(n):
            a, b = self._var(n, 'Real', lo, hi), self._var(n + '.im', 'Real', lo, hi)
            if nonzero:
                explore.cur().assume(tm.bnot(tm.band(tm.cmp('==', a), tm.cmp('==', b))))
            return Sym(a, b, 'c')
        return mk(name) if shape is None else self._arr(name, shape, mk, 'c')

    def pyfloat(self, name, lo=None, hi=None, pos=False):
        s = self.real(name, None, lo, hi, pos)
        return s.item()

    def sint(self, name, lo, hi):
        from .sym import Sym
        return Sym(self._var(name, 'Int', lo, hi), ZERO, 'i', True)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return explore.cur().concretize_int(self._var(name, 'Int', lo, hi))

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def assume(self, c):
        from .sym import tobool
        if isinstance(c, np.ndarray):
            for e in c.ravel():
                self.assume(e)
            return
        explore.cur().assume(tobool(c))

    # obligations
    def _add(self, label, kind, cond, lhs=None, rhs=None, msg=None):
        self.obl.append(dict(label=label, kind=kind, cond=cond, lhs=lhs, rhs=rhs, msg=msg, finding=self._finding,
                             npc=len(explore.cur().pc)))

    def check(self, cond, label):
        from .sym import tobool, SymBool, Sym
        if isinstance(cond, np.ndarray):
            cond = tm.band(*[tobool(e) for e in cond.ravel()])
        elif isinstance(cond, (SymBool, Sym)):
            cond = tobool(cond)
        else:
            cond = tm.bconst(bool(cond))
        self._add(label, 'check', [cond])

    def fail(self, label):
        self._add(label, 'check', [tm.FALSE])

    def _flat(self, x):
        from .arr import to_sarr, raw
        from .sym import lift
        if hasattr(x, '_spk'):
            x = x.toarray()
        if hasattr(x, 'to_numpy'):
            x = x.to_numpy()
        a = to_sarr(x)
        return a.shape, [lift(e) for e in raw(a).ravel().tolist()]

    def eq(self, a, b, label, tol=None):
        """a (from the code) equals b (specification); shapes must agree"""
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return self.check(a == b if type(a) is type(b) else False, label)
        try:
            sa, la = self._flat(a)
            sb, lb = self._flat(b)
        except ValueError as e:
            self._add(label, 'eq', [tm.FALSE], msg='ragged: %s' % e)
            return
        if sa != sb:
            self._add(label, 'eq', [tm.FALSE], msg='shape %s, expected %s' % (sa, sb))
            return
        conds, l, r = [], [], []
        for x, y in zip(la, lb):
            conds.append(tm.band(tm.cmp('==', tm.sub(x.re, y.re)), tm.cmp('==', tm.sub(x.im, y.im))))
            l.append((x.re, x.im))
            r.append((y.re, y.im))
        self._add(label, 'eq', conds, l, r)

    def le(self, a, b, label):
        from .sym import s_le, tobool
        sa, la = self._flat(a)
        sb, lb = self._flat(b)
        if len(lb) == 1 and len(la) > 1:
            lb = lb * len(la)
        self._add(label, 'check', [tobool(s_le(x, y)) for x, y in zip(la, lb)])

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            self._add(label, 'check', [tm.TRUE])
            return
        except Exception as e:
            if isinstance(e, Unsupported):
                raise
        self._add(label, 'check', [tm.FALSE])

    def same_dtype(self, a, kinds, label):
        k = getattr(getattr(a, 'dtype', None), 'kind', '?')
        self.check(k in kinds, label)

    def store(self):
        return self.npf.STORE

    def scratch(self):
        """a directory for the (empty) files the models create; removed after the case"""
        if not SCRATCH:
            SCRATCH.append(tempfile.mkdtemp(prefix='verif-sym-'))
        return SCRATCH[0]


SCRATCH = []


# ------------------------------------------------------------------------------------------------ real mode
class RealH(Base):
    symbolic = False

    def __init__(self, name, params, tier, values, seed, loader_args, scratch):
        Base.__init__(self, name, params, tier)
        import scipy.sparse
        self.np, self.sp = np, scipy.sparse
        self.values, self.seed = values or {}, seed
        self.used = {}
        self.results = []
        self._scratch = scratch
        self.loader_args = loader_args

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def stub(self, name, m):
        sys.modules[name] = m

    def _val(self, name, sort='Real', lo=None, hi=None):
        self.meta[name] = m = {'sort': sort, 'lo': lo, 'hi': hi}
        if name in self.values:
            v = self.values[name]
        else:
            v = sample_value(name, m, self.seed)
        self.used[name] = v
        v = Fraction(v) if not isinstance(v, bool) else v
        if lo is not None and v < lo or hi is not None and v > hi:
            raise PathInfeasible()
        return v

    def _arr(self, name, shape, f, dt):
        a = np.empty(shape, dtype=dt)
        for i in np.ndindex(*a.shape):
            a[i] = f(self.el(name, i))
        return a

    def real(self, name, shape=None, lo=None, hi=None, pos=False, nonzero=False):
        def mk(n):
            v = self._val(n, 'Real', 0 if pos and lo is None else lo, hi)
            if pos and v <= 0 or nonzero and v == 0:
                raise PathInfeasible()
            return np.float64(float(v))
        return mk(name) if shape is None else self._arr(name, shape, mk, float)

    def cplx(self, name, shape=None, lo=None, hi=None, nonzero=False):
        def mk(n):
            a, b = self._val(n, 'Real', lo, hi), self._val(n + '.im', 'Real', lo, hi)
            if nonzero and a == 0 and b == 0:
                raise PathInfeasible()
            return np.complex128(complex(float(a), float(b)))
        return mk(name) if shape is None else self._arr(name, shape, mk, complex)

    def pyfloat(self, name, lo=None, hi=None, pos=False):
        return float(self.real(name, None, lo, hi, pos))

    def sint(self, name, lo, hi):
        return int(self._val(name, 'Int', lo, hi))

    def int(self, name, lo, hi):
        return lo if lo == hi else int(self._val(name, 'Int', lo, hi))

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def assume(self, c):
        if not np.all(c):
            raise PathInfeasible()

    def _res(self, label, ok, info=None, lhs=None):
        self.results.append(dict(label=label, ok=bool(ok), info=info, lhs=lhs, finding=self._finding))

    def check(self, cond, label):
        self._res(label, bool(np.all(cond)))

    def fail(self, label):
        self._res(label, False)

    def eq(self, a, b, label, tol=None):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return self.check(a == b, label)
        if hasattr(a, 'toarray'):
            a = a.toarray()
        if hasattr(b, 'toarray'):
            b = b.toarray()
        try:
            a, b = np.asarray(a), np.asarray(b)
            if a.dtype == object:
                a = a.astype(complex)
            if b.dtype == object:
                b = b.astype(complex)
        except (ValueError, TypeError) as e:
            return self._res(label, False, 'ragged: %s' % e)
        if a.shape != b.shape:
            return self._res(label, False, 'shape %s, expected %s' % (a.shape, b.shape))
        a_, b_ = a.astype(complex).ravel(), b.astype(complex).ravel()
        lhs = [[x.real, x.imag] for x in a_[:24].tolist()]
        if a_.size == 0:
            return self._res(label, True, None, lhs)
        if not (np.all(np.isfinite(a_)) and np.all(np.isfinite(b_))):
            same = np.array_equal(np.isfinite(a_), np.isfinite(b_))
            return self._res(label, False if not same else None is None and not np.any(np.isfinite(a_) & (np.abs(a_ - b_) > 1e-6)),
                             'not finite', lhs)
        sc = max(np.max(np.abs(a_)), np.max(np.abs(b_)))
        tol = tol or RTOL
        err = np.abs(a_ - b_)
        bad = err > tol * np.maximum(np.abs(a_), np.abs(b_)) + ATOL * sc + 1e-14
        i = int(np.argmax(err))
        self._res(label, not np.any(bad), None if not np.any(bad) else
                  'element %d: got %s, expected %s' % (i, a_[i], b_[i]), lhs)

    def le(self, a, b, label):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        self._res(label, bool(np.all(a <= b + 1e-9 * (1e-6 + np.abs(b)))))

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            return self._res(label, True)
        except Exception as e:
            return self._res(label, False, 'raised %r' % e)
        self._res(label, False, 'did not raise')

    def same_dtype(self, a, kinds, label):
        self.check(np.asarray(a).dtype.kind in kinds, label)

    def scratch(self):
        return self._scratch


def match_draws(h, got, k, formula, label):
    """every element of the array is formula(index, draw, ..) of k draws of its own (in whatever order they were drawn)"""
    import itertools
    got = h.np.asarray(got)
    if h.symbolic:
        from .npf import RNG
        from .sym import Sym, lift
        names = list(dict.fromkeys(RNG.draws))
        val = lambda n: Sym(tm.var(n), ZERO, 'f')
    else:
        names = [n for n in h.used if n.startswith('xi[')]
        val = lambda n: np.float64(float(h.used[n]))
    used, shared = set(), False
    exp = np.empty(got.shape, dtype=object)
    for i in np.ndindex(*got.shape):
        g = got[i]
        free = [n for n in names if n not in used]
        cand = free
        if h.symbolic:
            g = lift(g)
            fv = tm.free_vars([g.re, g.im])
            own = [n for n in names if n in fv]
            cand = own + [n for n in free if n not in own][:max(0, k - len(own))]
        best = None
        for pool in (cand, names):
            for p in itertools.permutations(pool, k):
                e = formula(i, *[val(n) for n in p])
                if h.symbolic:
                    e = lift(e)
                    hit = tm.sub(e.re, g.re) is ZERO and tm.sub(e.im, g.im) is ZERO
                    err = 0
                else:
                    err = abs(complex(e) - complex(g))
                    hit = err <= 1e-9 * abs(complex(g)) + 1e-14
                if best is None or hit or err < best[0]:
                    best = (err, p, e)
                if hit:
                    break
            if best is not None and (h.symbolic or hit):
                break
        if best is None:
            h.check(False, label + ': enough draws')
            h.eq(got, got, label)
            return
        exp[i] = best[2]
        if not h.symbolic and hit and abs(complex(g)) < 1e-12:
            continue  # nothing is left of the draws
        if set(best[1]) & used:
            shared = True
        used |= set(best[1])
    h.check(not shared, label + ': independent draws')
    if h.symbolic:
        from .arr import wrap
        exp = wrap(exp, 'c')
    h.eq(got, exp, label)


class RealRandom(object):
    """np.random replaced on the real side by draws taken from the assignment (same names as the symbolic ones)"""

    def __init__(self, h):
        self.h, self.seed_, self.pos = h, 'init', 0

    def seed(self, s=None):
        self.seed_, self.pos = s, 0

    def _names(self, k, n):
        r = ['%s[%s,%d]' % (k, self.seed_, self.pos + i) for i in range(n)]
        self.pos += n
        return r

    def std(self, sh):
        n = int(np.prod(sh)) if sh != () else 1
        v = np.array([float(self.h._val(nm)) for nm in self._names('xi', n)])
        return v[0] if sh == () else v.reshape(sh)

    @staticmethod
    def sh(size, *ps):
        if size is None:
            return np.broadcast_shapes(*[np.shape(p) for p in ps])
        return (int(size),) if not isinstance(size, (tuple, list)) else tuple(int(x) for x in size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.std(self.sh(size, loc, scale))

    def standard_normal(self, size=None):
        return self.std(self.sh(size) if size is not None else ())

    def randn(self, *s):
        return self.std(tuple(int(x) for x in s))

    def random(self, size=None):
        sh = self.sh(size) if size is not None else ()
        n = int(np.prod(sh)) if sh != () else 1
        v = np.array([float(self.h._val(nm, 'Real', 0, 1)) for nm in self._names('xi', n)])
        return v[0] if sh == () else v.reshape(sh)

    def rand(self, *s):
        return self.random(tuple(s) if s else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        sh = self.sh(size, low, high)
        n = int(np.prod(sh)) if sh != () else 1
        lo, hi = np.broadcast_to(low, sh).ravel(), np.broadcast_to(high, sh).ravel()
        v = np.array([int(self.h._val(nm, 'Int', int(l), int(h_) - 1)) for nm, l, h_ in zip(self._names('ri', n), lo, hi)], dtype=np.int64)
        return int(v[0]) if sh == () else v.reshape(sh)

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return a[self.randint(0, len(a), size)]

    def install(self):
        for n in ('seed', 'normal', 'standard_normal', 'randn', 'random', 'rand', 'uniform', 'randint', 'choice'):
            setattr(np.random, n, getattr(self, n))
        np.random.random_sample = self.random


# ------------------------------------------------------------------------------------------------ running
def enc_val(v):
    return v if isinstance(v, bool) else str(Fraction(v).limit_denominator(10 ** 15) if isinstance(v, float) else v)


def dec_val(v):
    return v if isinstance(v, bool) else Fraction(v)


def in_child(f, timeout=None):
    """run f() in a forked child, returning its JSON result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = f()
            except BaseException as e:
                res = {'crash': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-3000:]}
            with os.fdopen(w, 'w') as o:
                json.dump(res, o)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def wait_child(pid, r, timeout=None):
    import select
    buf = b''
    end = time.time() + timeout if timeout else None
    while True:
        left = None if end is None else max(0, end - time.time())
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            import signal
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf.decode())
    except ValueError:
        return {'crash': 'no result (time or memory limit)'}


def real_run(check, case, fn, params, tier, values, seed=0, timeout=300):
    """Run a scenario on the real code in a child process. Returns dict(status, results, used)"""
    def go():
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 2)
        import warnings
        warnings.simplefilter('ignore')
        from . import loader
        scratch = tempfile.mkdtemp(prefix='verif-real-')
        sys.pycache_prefix = os.path.join(scratch, 'pyc')
        sys.dont_write_bytecode = True
        sys.path.insert(0, loader.REPO)
        os.environ['TQDM_DISABLE'] = '1'
        try:
            os.chdir(scratch)
            import importlib
            try:
                conf = importlib.import_module('conf.conf')
                loader.set_dirs(conf, scratch)
                os.makedirs(os.path.join(scratch, 'sim', 'plot_data'))
                os.makedirs(os.path.join(scratch, 'tikz'))
            except Exception:
                pass
            import tqdm
            tqdm.tqdm = loader.Tqdm
            h = RealH(case, params, tier, {k: dec_val(v) for k, v in (values or {}).items()}, seed, {}, scratch)
            RealRandom(h).install()
            status = 'ok'
            try:
                getattr(check, 'real_setup', lambda h: None)(h)
                with np.errstate(all='ignore'):
                    fn(h, **params)
            except PathInfeasible:
                status = 'infeasible'
            except Exception as e:
                h.results.append(dict(label='no exception', ok=False, info='%s: %s' % (type(e).__name__, str(e)[:300]),
                                      exc=type(e).__name__, lhs=None, finding=h._finding, trace=traceback.format_exc()[-1500:]))
            return dict(status=status, results=h.results, used={k: enc_val(v) for k, v in h.used.items()}, meta=h.meta)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    pid, r = in_child(go)
    return wait_child(pid, r, timeout)


def rand_point(vars_, meta, trial):
    env = {}
    for n, t in vars_.items():
        m = meta.get(n)
        if m is None:
            m = {'sort': 'Int' if tm.sort_of(n) == 'Int' else 'Real'}
        if isinstance(t, tm.B):
            m = {'sort': 'Bool'}
        env[n] = sample_value(n, m, trial)
    return env


def small_points(vars_, meta, pc):
    """points with one or more groups of inputs scaled down"""
    group = lambda n: re.match(r'[A-Za-z_]*', n).group()
    names = sorted({group(n) for n in vars_})
    for trial in range(36):
        rnd = random.Random(trial)
        k = {g: rnd.choice([Fraction(1), Fraction(1, 2 ** 14)]) if trial >= len(names) else Fraction(1, 2 ** 14) if g == names[trial] else Fraction(1)
             for g in names}
        env = rand_point(vars_, meta, 7000 + trial)
        env = {n: v * k[group(n)] if isinstance(v, Fraction) and tm.sort_of(n) != 'Int' else v for n, v in env.items()}
        if holds(pc, env):
            yield env


def holds(bs, env):
    memo = {}
    try:
        return all(tm.evaluate(b, env, memo) for b in bs)
    except tm.EvalError:
        return False


class CaseResult(dict):
    pass


def run_case(check, case, fn, params, tier, opts):
    """Explore one scenario symbolically and decide its obligations. Runs in a child process."""
    from . import loader, npf
    t0 = time.time()
    qt = opts['query_timeout']
    ex = Explorer(max_paths=opts['max_paths'], branch_timeout=opts['branch_timeout'])
    CUR[0] = ex
    out = dict(case=case, paths=0, infeasible=0, obligations=0, elements=0, folded=0, folded_distinct=0, folded_unsat=0, proved=0, violations=[], inconclusive=[],
               witnesses=0, validated=0, val_elems=0, samples=[], labels={}, mismatches=[])
    deadline = t0 + opts['case_budget']
    real_budget = opts['real_runs']

    def real(values, seed=0):
        return real_run(check, case, fn, params, tier, {k: enc_val(v) for k, v in values.items()}, seed, opts['real_timeout'])

    def report(label, finding, rr, values, how, info):
        out['violations'].append(dict(case=case, label=label, finding=finding, how=how, info=info,
                                      values={k: enc_val(v) for k, v in values.items()}, params=repr(params)))

    def confirm(o_label, finding, values, how):
        """replay; True if the real code breaks this obligation (or any other)"""
        rr = real(values)
        if rr.get('crash') or rr.get('status') != 'ok':
            return None
        bad = [x for x in rr['results'] if not x['ok']]
        bad_same = [x for x in bad if x['label'] == o_label and x.get('finding') == finding]
        if bad_same:
            report(o_label, finding, rr, values, how, bad_same[0].get('info'))
            return True
        others = [x for x in bad if x.get('finding') == finding]
        if others:
            report(others[0]['label'], finding, rr, values, how, others[0].get('info'))
            return True
        return False

    bad_labels = set()
    try:
        while ex.next_path():
            if time.time() > deadline:
                out['inconclusive'].append(dict(label='*', why='case time budget', paths_left=len(ex.work) + 1))
                break
            npf.reset()
            npf.HOOKS.clear()
            if 'engine.ppmodel' in sys.modules:
                sys.modules['engine.ppmodel'].reset()
            npf.HOOKS.update(getattr(check, 'HOOKS', {}))
            h = SymH(case, params, tier, {})
            exc = None
            try:
                getattr(check, 'sym_setup', lambda h: None)(h)
                fn(h, **params)
            except PathInfeasible:
                out['infeasible'] += 1
                continue
            except (Unsupported, PathLimit, RecursionError) as e:
                out['inconclusive'].append(dict(label='*', why='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-1800:]))
                continue
            except Exception as e:
                exc = e
                h._add('no exception', 'exc', [tm.FALSE], msg='%s: %s' % (type(e).__name__, e))
                exc_trace = traceback.format_exc()[-1800:]
            out['paths'] += 1
            pc = list(ex.pc)
            # ---- a witness of this path: feasible and reaches the end
            allterms = list(pc)
            for o in h.obl:
                allterms += o['cond']
                for l in (o['lhs'] or []):
                    allterms += list(l)
            fv = tm.free_vars(allterms + tm.axioms(allterms))
            fv = {n: t for n, t in fv.items() if n != '$pi' and n not in tm.DEFS}
            meta = dict(h.meta)
            points = []
            for trial in range(40):
                env = rand_point(fv, meta, 1000 * out['paths'] + trial)
                if holds(pc, env):
                    points.append(env)
                    if len(points) >= 3:
                        break
            wit = points[0] if points else None
            if wit is None:
                r = smt.solve(pc, timeout=qt)
                if r.status == 'unsat':
                    out['infeasible'] += 1
                    continue
                if r.status == 'sat':
                    wit = {n: r.model.get(n, Fraction(0)) for n in fv}
                    if not holds(pc, wit):
                        wit = wit
            if wit is None:
                out['inconclusive'].append(dict(label='*', why='no witness found for the path condition'))
            else:
                out['witnesses'] += 1
            # ---- obligations
            folded = {}
            for o in h.obl:
                out['obligations'] += 1
                lab = o['label']
                st = out['labels'].setdefault(lab, dict(n=0, proved=0, vars=0))
                st['n'] += 1
                key = (lab, o['finding'])
                if key in bad_labels:
                    continue
                conds = o['cond']
                out['elements'] += len(conds)
                todo = []
                for i, c in enumerate(conds):
                    if c is tm.TRUE:
                        out['folded'] += 1
                        if o['lhs'] is not None:
                            for x, y in zip(o['lhs'][i], o['rhs'][i]):
                                if not (x.is_const and y.is_const) and (x, y) not in folded:
                                    folded[x, y] = lab
                    else:
                        todo.append((i, c))
                ok = True
                decided = set()
                for i, c in todo:
                    if c in decided or ex.known.get(c) is True:
                        continue
                    decided.add(c)
                    if time.time() > deadline:
                        out['inconclusive'].append(dict(label=lab, why='case time budget'))
                        ok = False
                        break
                    neg = tm.bnot(c)
                    # a point at which the negation holds?
                    cand = None
                    for env in points[:3]:
                        memo = {}
                        try:
                            if o['lhs'] is not None and o['kind'] == 'eq':
                                a = [tm.evaluate(t, env, memo) for t in o['lhs'][i]]
                                b = [tm.evaluate(t, env, memo) for t in o['rhs'][i]]
                                sc = max([abs(x) for x in a + b] + [0])
                                if max(abs(x - y) for x, y in zip(a, b)) > 1e-7 * float(sc) + 1e-12:
                                    cand = env
                            elif not tm.evaluate(c, env, memo):
                                cand = env
                        except (tm.EvalError, OverflowError):
                            continue
                        if cand is not None:
                            break
                    model, status = None, None
                    if cand is not None:
                        pins = pin(fv, cand)
                        r = smt.solve(pc + [neg] + pins, timeout=min(qt, 10))
                        if r.status == 'sat':
                            status, model = 'sat', cand
                        elif r.status == 'unknown' or True:
                            status, model = 'sat?', cand
                    else:
                        r = smt.solve(pc + [neg], timeout=qt)
                        if r.status == 'unknown' and opts.get('retry'):
                            r = smt.solve(pc + [neg], timeout=qt * 2, exp_facts=True)
                        status = r.status
                        if status == 'sat':
                            model = {n: r.model.get(n, Fraction(0)) for n in fv}
                    if status == 'unsat':
                        continue
                    ok = False
                    if model is not None:
                        c_ = confirm(lab, o['finding'], model, status)
                        if not c_ and points:
                            # the solver's values may differ too little to be seen in floating point: try around them
                            for env in points[:2]:
                                mix = dict(env)
                                c_ = c_ or confirm(lab, o['finding'], mix, status)
                        if not c_ and o['lhs'] is not None and o['kind'] == 'eq':
                            # or with some of the inputs small, until the sides clearly differ
                            for env in small_points(fv, meta, pc):
                                try:
                                    memo = {}
                                    a = [tm.evaluate(t, env, memo) for t in o['lhs'][i]]
                                    b = [tm.evaluate(t, env, memo) for t in o['rhs'][i]]
                                except (tm.EvalError, OverflowError):
                                    continue
                                sc = max([abs(x) for x in a + b] + [0])
                                if sc > 1e-12 and max(abs(x - y) for x, y in zip(a, b)) > 1e-3 * float(sc):
                                    c_ = confirm(lab, o['finding'], env, status)
                                    if c_:
                                        break
                        if c_:
                            bad_labels.add(key)
                            break
                        if smt.solve(pc + [neg], timeout=qt * 2, exp_facts=True).status == 'unsat':
                            ok = True       # the model disregarded what is known of exp
                            continue
                        out['inconclusive'].append(dict(label=lab, why='counterexample of the encoding does not reproduce on the real '
                                                        'code', elem=i, msg=o['msg'], values={k: enc_val(v) for k, v in list(model.items())[:40]},
                                                        trace=exc_trace if exc is not None else None))
                        bad_labels.add(key)
                        break
                    out['inconclusive'].append(dict(label=lab, why='solver: unknown', elem=i))
                    bad_labels.add(key)
                    break
                if ok:
                    out['proved'] += 1
                    st['proved'] += 1
            # ---- equalities whose sides became one term: the solver decides them as well, many at a time
            pairs = list(folded)
            for k in range(0, len(pairs), 100):
                if time.time() > deadline:
                    break
                some = pairs[k:k + 100]
                try:
                    r = smt.solve(pc + [tm.bnot(tm.band(*[tm.same(x, y) for x, y in some]))], timeout=qt)
                except Unsupported:
                    continue
                if r.status == 'unsat':
                    out['folded_unsat'] += len(some)
                elif r.status == 'sat':
                    out['mismatches'].append('the solver does not agree that folded equalities hold: %s' % folded[some[0]])
            out['folded_distinct'] += len(pairs)
            # ---- replay of the witness on the real code: vacuity and translator validation
            if wit is not None and real_budget > 0:
                real_budget -= 1
                rr = real(wit)
                if rr.get('crash'):
                    out['mismatches'].append('real run failed: %s' % rr['crash'])
                elif rr['status'] != 'ok':
                    out['mismatches'].append('witness is infeasible on the real side (rounding)')
                else:
                    out['validated'] += 1
                    if len(out['samples']) < 3:
                        out['samples'].append(dict(case=case, inputs={k: enc_val(v) for k, v in list(wit.items())[:8]},
                                                   obligations=len(rr['results'])))
                    for x in rr['results']:
                        if not x['ok'] and (x['label'], x.get('finding')) not in bad_labels:
                            report(x['label'], x.get('finding'), rr, wit, 'witness replay', x.get('info'))
                            bad_labels.add((x['label'], x.get('finding')))
                    symb = [o for o in h.obl if o['kind'] == 'eq' and o['lhs'] is not None]
                    reals = [x for x in rr['results'] if x.get('lhs') is not None]
                    if len(symb) == len(reals):
                        memo = {}
                        for o, x in zip(symb, reals):
                            try:
                                vals = [[float(tm.evaluate(t, wit, memo)) for t in l] for l in o['lhs'][:24]]
                            except (tm.EvalError, OverflowError):
                                continue
                            if len(vals) != len(x['lhs']):
                                out['mismatches'].append('%s: sizes differ' % o['label'])
                                continue
                            sc = max([abs(v) for l in vals for v in l] + [1e-12])
                            for v, w in zip(vals, x['lhs']):
                                out['val_elems'] += 1
                                if any(abs(p - q) > 1e-5 * sc + 1e-11 for p, q in zip(v, w)):
                                    out['mismatches'].append('%s: encoding gives %s, real code %s' % (o['label'], v, w))
                                    break
                    elif exc is None:
                        out['mismatches'].append('real run made %d comparisons, encoding %d' % (len(reals), len(symb)))
    except PathLimit as e:
        out['inconclusive'].append(dict(label='*', why=str(e)))
    # ---- what could not be decided is at least executed at a few concrete points
    if out['inconclusive'] and not out['violations']:
        seen = 0
        for trial in range(60):
            if seen >= opts.get('fallback_runs', 4) or time.time() > deadline + 60:
                break
            rr = real_run(check, case, fn, params, tier, {}, 7000 + trial, opts['real_timeout'])
            if rr.get('crash') or rr['status'] != 'ok':
                continue
            seen += 1
            bad = [x for x in rr['results'] if not x['ok']]
            if bad:
                report(bad[0]['label'], bad[0].get('finding'), rr, {k: dec_val(v) for k, v in rr['used'].items()},
                       'concrete run where the encoding is inconclusive', bad[0].get('info'))
                break
        out['fallback_runs'] = seen
    while SCRATCH:
        shutil.rmtree(SCRATCH.pop(), ignore_errors=True)
    out['encoded'] = dict(loader.ENCODED)
    out['stats'] = smt.STATS.dict()
    out['unknown_branches'] = ex.unknown_branches
    out['wall'] = round(time.time() - t0, 2)
    return out


def pin(fv, env):
    r = []
    for n, t in fv.items():
        v = env[n]
        if isinstance(t, tm.B):
            r.append(t if v else tm.bnot(t))
        else:
            r.append(tm.cmp('==', tm.sub(t, const(Fraction(v)))))
    return r
