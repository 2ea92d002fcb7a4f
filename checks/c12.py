"""C12: iteration log, stopping rule and reuse of the iterative regressions."""
from checks.c10 import REG, EIV, Prior, builders
BOUNDS = ('up to 3 (quick) or 4 (thorough) iterations with arbitrary penalties, parameters, tolerances; both iterative regressions, weighted and not, one '
          'node; a second fit of the same model')
OUTSIDE = 'targets of general data (their formula is decided separately); more iterations (the rule is decided for every pair of consecutive ones)'


class Pen(object):
    """a prior whose minimiser and penalty are arbitrary at each evaluation: with zero data the target is |lambda * penalty|"""

    def __init__(self, h, m):
        self.h, self.m, self.k, self.pens = h, m, 0, []

    def log_distribution(self, y):
        self.k += 1
        p = self.h.pyfloat('pen%d' % self.k, lo=-4, hi=4)
        self.pens.append(p)
        mu = self.h.np.array([1.0 * self.k, -0.5 * self.k])
        return self.h.np.eye(self.m), mu, p


def make(h, which, prior, **kw):
    b, m = builders(h, 'full', 1)
    cls = h.mod(EIV).BayesianEIVRegression if which != 'plain' else h.mod(REG).BayesianRegression
    return cls(prior, verbose=kw.pop('verbose', False), **dict(b, **kw))


def run(h, which, reg):
    np = h.np
    X, Z, Y0 = np.zeros((1, 1), dtype=complex), np.zeros((1, 1), dtype=complex), np.ones((1, 1), dtype=complex)
    if which == 'plain':
        reg.fit(X, Z, Y0)
    elif which == 'weighted':
        reg.fit(X, Z, h.sp.eye(2, format='csr'), h.sp.eye(2, format='csr'), Y0)
    else:
        reg.fit(X, Z, None, None, Y0)


def stops(h, cur, prev, at, rt):
    """documented rule: the target did not increase and changed by less than one of the tolerances"""
    d = prev - cur
    return h.np.logical_and(d >= 0, h.np.logical_or(d < at, d < rt * prev))


def rule(h, which, N, tol, verbose=False):
    np = h.np
    at = h.pyfloat('abs', lo=0, hi=2) if tol in ('abs', 'both') else 0.0
    rt = h.pyfloat('rel', lo=0, hi=1) if tol in ('rel', 'both') else 0.0
    prior = Pen(h, 2)
    reg = make(h, which, prior, lambda_value=1.0, abs_tol=at, rel_tol=rt, max_iterations=N, verbose=verbose)
    run(h, which, reg)
    its = reg.iterations
    n = len(its)
    h.check(1 <= n <= N, 'between one and the maximum number of iterations')
    t = [abs(prior.pens[k + 1]) for k in range(n)]
    for k in range(n):
        h.check(its[k].iteration == k, 'iterations are numbered from zero')
        h.eq(its[k].target_function, t[k], 'the target of each iteration is logged')
        h.eq(its[k].fitted_parameters, np.array([[1.0 * (k + 1) - 0.5j * (k + 1)]]), 'the parameters of each iteration are logged')
    for k in range(1, n):
        h.assume(t[k - 1] > 0)
        s = stops(h, t[k], t[k - 1], at, rt)
        if k < n - 1:
            h.check(np.logical_not(s), 'no earlier iterate met the stopping rule')
        elif n < N:
            h.check(s, 'the last iterate met the stopping rule')
    h.eq(reg.fitted_admittance_matrix, its[-1].fitted_parameters, 'the result is the last iterate')


def again(h, which):
    """tolerances off: all iterations are done"""
    np = h.np
    prior = Pen(h, 2)
    reg = make(h, which, prior, lambda_value=1.0, abs_tol=0.0, rel_tol=0.0, max_iterations=2)
    h.check(reg.fitted_admittance_matrix is None and len(reg.iterations) == 0, 'nothing is reported before fitting')
    run(h, which, reg)
    h.check(len(reg.iterations) == 2, 'zero tolerances never stop early')


def refit(h, which):
    """fitting the same model again is independent of the first fit"""
    rt = h.pyfloat('rel', lo=0, hi=1)
    prior = Pen(h, 2)
    reg = make(h, which, prior, lambda_value=1.0, abs_tol=0.0, rel_tol=rt, max_iterations=2)
    for rep in range(2):
        k0 = prior.k
        run(h, which, reg)
        its = reg.iterations
        t = [abs(p) for p in prior.pens[k0 + 1:]]
        h.check(len(its) == len(t), 'the log describes the last fit')
        h.eq(its[-1].target_function, t[-1], 'the last entry belongs to the last fit')
        h.eq(reg.fitted_admittance_matrix, its[-1].fitted_parameters, 'the result is the last iterate')
        h.assume(t[0] > 0)


def cases(tier):
    r = []
    N = 4
    for w in ('plain', 'weighted', 'unweighted'):
        r.append(('rule-both-%s' % w, rule, dict(which=w, N=2 if tier != 'thorough' else 3, tol='both')))
        for tol in ('abs', 'rel', 'none'):
            r.append(('rule-%s-%s' % (tol, w), rule, dict(which=w, N=N, tol=tol, verbose=tol == 'none')))
        r.append(('refit-%s' % w, refit, dict(which=w)))
        r.append(('again-%s' % w, again, dict(which=w)))
    return r
