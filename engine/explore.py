"""Path exploration by re-execution: every branch on a symbolic condition asks z3 which sides are feasible."""
import time
from fractions import Fraction

from . import terms as tm
from . import smt
from .terms import Unsupported


class PathInfeasible(BaseException):
    pass


class PathLimit(Exception):
    pass


class Explorer(object):
    def __init__(self, max_paths=200, branch_timeout=6.0):
        self.max_paths = max_paths
        self.branch_timeout = branch_timeout
        self.work = [()]
        self.paths = 0
        self.unknown_branches = 0
        self.reset(())

    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []          # list of B: assumptions and branch conditions
        self.known = {}
        self.model = None
        self.fork_sites = 0

    def next_path(self):
        if not self.work:
            return False
        if self.paths >= self.max_paths:
            raise PathLimit('more than %d paths' % self.max_paths)
        self.paths += 1
        self.reset(self.work.pop())
        return True

    # ---------------------------------------------------------------- conditions
    def _learn(self, b):
        self.pc.append(b)
        self.known[b] = True
        self.known[tm.bnot(b)] = False
        if b.op == 'and':
            for x in b.args:
                self.known[x] = True
                self.known[tm.bnot(x)] = False

    def _model_ok(self, b):
        if self.model is None:
            return False
        try:
            env = dict(self.model)
            for v in tm.free_vars([b]):
                if v not in env and v != '$pi':
                    return False
            return bool(tm.evaluate(b, env))
        except Exception:
            return False

    def assume(self, b):
        if b is tm.TRUE or self.known.get(b) is True:
            return
        if b is tm.FALSE or self.known.get(b) is False:
            raise PathInfeasible()
        ok = self._model_ok(b)
        self._learn(b)
        if not ok:
            self.model = None

    def feasible(self, extra):
        r = smt.solve(self.pc + extra, timeout=self.branch_timeout)
        return r

    def decide(self, b):
        if b is tm.TRUE:
            return True
        if b is tm.FALSE:
            return False
        k = self.known.get(b)
        if k is not None:
            return k
        i = len(self.trace)
        if i < len(self.prefix):
            choice = self.prefix[i]
            self.trace.append(choice)
            self._learn(b if choice else tm.bnot(b))
            self.model = None
            return choice
        nb = tm.bnot(b)
        can_t = can_f = None
        mt = mf = None
        if self._model_ok(b):
            can_t, mt = True, self.model
        elif self._model_ok(nb):
            can_f, mf = True, self.model
        if can_t is None:
            r = self.feasible([b])
            can_t, mt = r.status != 'unsat', r.model if r.status == 'sat' else None
            if r.status == 'unknown':
                self.unknown_branches += 1
        if can_f is None:
            r = self.feasible([nb])
            can_f, mf = r.status != 'unsat', r.model if r.status == 'sat' else None
            if r.status == 'unknown':
                self.unknown_branches += 1
        if not can_t and not can_f:
            raise PathInfeasible()
        if can_t and can_f:
            self.fork_sites += 1
            self.work.append(tuple(self.trace) + (False,))
            choice = True
        else:
            choice = can_t
        self.trace.append(choice)
        self._learn(b if choice else nb)
        self.model = mt if choice else mf
        return choice

    def concretize_int(self, t):
        """Branch over the feasible integer values of a term"""
        if t.op == 'c':
            if t.args.denominator != 1:
                raise Unsupported('non-integer index')
            return int(t.args)
        for _ in range(64):
            v = None
            if self.model is not None:
                try:
                    v = tm.evaluate(t, self.model)
                    if v != int(v):
                        v = None
                except Exception:
                    v = None
            if v is None:
                z = tm.var('$cz%d' % len(self.trace), 'Int')
                r = smt.solve(self.pc + [tm.cmp('==', tm.sub(z, t))], timeout=self.branch_timeout)
                if r.status == 'unsat':
                    raise PathInfeasible()
                if r.status != 'sat':
                    raise Unsupported('cannot enumerate an integer value')
                v = r.model['$cz%d' % len(self.trace)]
            v = int(v)
            if self.decide(tm.cmp('==', tm.sub(t, tm.const(v)))):
                return v
        raise Unsupported('integer takes too many values')


CUR = [None]      # the active explorer


def cur():
    if CUR[0] is None:
        raise Unsupported('no active exploration')
    return CUR[0]
