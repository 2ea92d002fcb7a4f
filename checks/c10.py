"""C10: every iterate of the Bayesian regression minimises the regularised least squares surrogate of the prior at the previous iterate."""
REG, EIV = 'src.models.regression', 'src.models.error_in_variable'
MO = 'src.models.matrix_operations'
SPR = 'src.models.smooth_prior'
BOUNDS = ('1-2 samples of 1-2 nodes, 2 iterations (quick) / 3 samples, 3 nodes, 3 iterations (thorough); arbitrary data, initial guess, '
          'regularisation weight and an arbitrary prior (any symmetric matrix, vector and penalty at every evaluation), and the smooth priors; full, '
          'symmetric and Laplacian parametrisations')
OUTSIDE = 'singular normal equations; single precision rounding; convergence of the iteration; GPU kernels'
ASSUMPTIONS = ('a linear solver returns the solution of its (regular) system', 'the normal equations are regular')


class Prior(object):
    """any prior: arbitrary symmetric matrix, vector and penalty at each evaluation"""

    def __init__(self, h, m, simple=False, scale=1.0):
        self.h, self.m, self.k, self.log, self.args, self.simple = h, m, 0, [], [], simple

    def log_distribution(self, y):
        h, m, k = self.h, self.m, self.k
        self.k += 1
        self.args.append(y)
        if self.simple:
            M, mu = h.np.eye(m), h.np.zeros(m)
        else:
            q = h.real('M%d' % k, (m, m), lo=-0.2, hi=0.2)
            M = q + q.T + 2 * h.np.eye(m)
            mu = h.real('mu%d' % k, (m,))
        pen = h.pyfloat('pen%d' % k, lo=0)
        self.log.append((M, mu, pen))
        return M, mu, pen


def builders(h, par, n):
    mo = h.mod(MO)
    if par == 'full':
        return dict(dt_matrix_builder=lambda k: h.np.eye(k * k), e_matrix_builder=lambda k: h.np.eye(k * k)), n * n
    if par == 'default':
        return {}, n * n
    if par == 'sym':
        return dict(dt_matrix_builder=mo.duplication_matrix, e_matrix_builder=mo.elimination_sym_matrix), n * (n + 1) // 2
    return dict(dt_matrix_builder=lambda k: mo.duplication_matrix(k) @ mo.transformation_matrix(k),
                e_matrix_builder=lambda k: mo.elimination_lap_matrix(k) @ mo.elimination_sym_matrix(k)), n * (n - 1) // 2


def expand(h, par, n, v):
    """admittance matrix of complex parameters, written out entry by entry"""
    Y = [[0] * n for _ in range(n)]
    if par in ('full', 'default'):
        for c in range(n):
            for r in range(n):
                Y[r][c] = v[c * n + r]
    elif par == 'sym':
        k = 0
        for c in range(n):
            for r in range(c, n):
                Y[r][c] = Y[c][r] = v[k]
                k += 1
    else:
        k = 0
        for c in range(n):
            for r in range(c + 1, n):
                Y[r][c] = Y[c][r] = -v[k]
                k += 1
        for i in range(n):
            Y[i][i] = -sum([Y[i][j] for j in range(n) if j != i])
    return Y


def params(h, par, n, Y):
    """real parameters (real parts, then imaginary parts) of an admittance matrix in the parametrised set"""
    if par in ('full', 'default'):
        v = [Y[r, c] for c in range(n) for r in range(n)]
    elif par == 'sym':
        v = [(Y[r, c] + Y[c, r]) / 2 for c in range(n) for r in range(c, n)]
    else:
        v = [-(Y[r, c] + Y[c, r]) / 2 for c in range(n) for r in range(c + 1, n)]
    return [a.real for a in v] + [a.imag for a in v]


def design(h, par, n, X):
    """real design matrix of vec(X Y(p)) with respect to the real parameters, T*n complex rows -> 2*T*n real ones"""
    T = X.shape[0]
    m = dict(full=n * n, default=n * n, sym=n * (n + 1) // 2, lap=n * (n - 1) // 2)[par]
    cols = []
    for k in range(m):
        Y = expand(h, par, n, [1 if j == k else 0 for j in range(m)])
        cols.append([sum([X[t, r] * Y[r][c] for r in range(n) if not (isinstance(Y[r][c], int) and Y[r][c] == 0)] or [0 * X[t, 0]])
                     for c in range(n) for t in range(T)])
    re = [[a.real for a in c] + [a.imag for a in c] for c in cols]
    im = [[-a.imag for a in c] + [a.real for a in c] for c in cols]
    return re + im                     # list of columns


def stack(Z):
    T, n = Z.shape
    v = [Z[t, c] for c in range(n) for t in range(T)]
    return [a.real for a in v] + [a.imag for a in v]


def dot(a, b):
    return sum([x * y for x, y in zip(a, b)])


def fit(h, par, T, n, iters, kind='any'):
    np = h.np
    X, Z, Y0 = h.cplx('x', (T, n)), h.cplx('z', (T, n)), h.cplx('y', (n, n))
    if par != 'full' and par != 'default':
        # a starting point in the parametrised set
        v = h.cplx('v', (dict(sym=n * (n + 1) // 2, lap=n * (n - 1) // 2)[par],))
        Y0 = np.array(expand(h, par, n, [v[i] for i in range(v.shape[0])]))
    lam = h.pyfloat('lam', lo=0.01)
    b, m = builders(h, par, n)
    if kind == 'any':
        prior = Prior(h, 2 * m)
    else:
        prior = getattr(h.mod(SPR), kind)(smoothness_param=0.5, n=2 * m)
        prior.add_sparsity_prior(np.arange(2 * m), None, h.mod(SPR).SmoothPrior.LAPLACE)
    reg = h.mod(REG).BayesianRegression(prior, lambda_value=lam, abs_tol=0.0, rel_tol=0.0, max_iterations=iters, verbose=False, **b)
    reg.fit(X, Z, Y0)
    its = reg.iterations
    h.check(len(its) == iters, 'one log entry per iteration')
    A, bv = design(h, par, n, X), stack(Z)
    prev = params(h, par, n, Y0)
    for k in range(iters):
        Y = its[k].fitted_parameters
        h.check(Y.shape == (n, n), 'iterates are square matrices')
        p = params(h, par, n, Y)
        h.eq(Y, np.array(expand(h, par, n, [p[i] + 1j * p[m + i] for i in range(m)])), 'iterates lie in the parametrised set')
        if kind == 'any':
            h.eq(prior.args[k].ravel(), np.array(prev), 'the prior is evaluated at the previous iterate')
            M, mu, _ = prior.log[k]
            pen = prior.log[k + 1][2]
        else:
            w = [1 / (np.abs(a) + 0.5) for a in prev]
            M = [[w[i] if i == j else 0.0 for j in range(2 * m)] for i in range(2 * m)]
            M, mu, pen = np.array(M), np.zeros(2 * m), sum([np.abs(a) + 0.5 for a in p])
        Ap = [dot([c[i] for c in A], p) for i in range(len(bv))]
        res = [b_ - a_ for b_, a_ in zip(bv, Ap)]
        lhs = [dot(A[i], Ap) + lam * dot([M[i, j] for j in range(2 * m)], p) for i in range(2 * m)]
        rhs = [dot(A[i], bv) + lam * mu[i] for i in range(2 * m)]
        h.eq(np.array(lhs), np.array(rhs), 'the gradient of the regularised least squares cost vanishes at the iterate', tol=1e-6)
        h.eq(its[k].target_function, np.abs(dot(res, res) + lam * pen), 'logged target = squared residual + weighted penalty')
        prev = p
    h.eq(reg.fitted_admittance_matrix, its[-1].fitted_parameters, 'the result is the last iterate')


ALONE = """
import numpy as np
from src.models.regression import BayesianRegression
class Prior(object):
    def log_distribution(self, y):
        return np.eye(2), np.zeros(2), 1.0
r = BayesianRegression(Prior(), lambda_value=1.0, max_iterations=1, verbose=False)
r.fit(np.array([[2.0 + 0j]]), np.array([[3.0 + 0j]]), np.array([[1.0 + 0j]]))
print(r.fitted_admittance_matrix.shape)
"""


class One(object):
    def __init__(self, np):
        self.np = np

    def log_distribution(self, y):
        return self.np.eye(2), self.np.zeros(2), 1.0


def alone(h):
    """a program that imports nothing but the module can fit"""
    np = h.np
    if h.symbolic:
        from engine import spf
        reg = h.mod(REG).BayesianRegression(One(np), lambda_value=1.0, max_iterations=1, verbose=False)
        imported = h.loader.imported
        ext = [m for m in imported if m.startswith('scipy.') and m not in ('scipy.sparse', 'scipy.linalg')] + [m for m in imported if m == 'pandapower']
        keep = spf.SPARSE.linalg
        if not ext:
            del spf.SPARSE.linalg          # scipy does not load this package by itself
        try:
            reg.fit(h.cplx('x', (1, 1)), h.cplx('z', (1, 1)), h.cplx('y', (1, 1)))
            ok = True
        except AttributeError:
            ok = False
        finally:
            spf.SPARSE.linalg = keep
        h.check(ok, 'the fit needs no import by its caller')
    else:
        import subprocess
        import sys
        from engine.loader import REPO
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', ALONE], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        h.cplx('x', (1, 1)), h.cplx('z', (1, 1)), h.cplx('y', (1, 1))
        h.check(r.returncode == 0, 'the fit needs no import by its caller')


def cases(tier):
    th = tier == 'thorough'
    r = [('alone', alone, {})]
    L = [('full', 1, 1, 2), ('full', 2, 1, 2), ('full', 1, 2, 2), ('default', 1, 1, 1), ('default', 1, 2, 1), ('sym', 2, 2, 2), ('lap', 1, 2, 2), ('lap', 2, 3, 1)]
    if th:
        L += [('full', 2, 2, 2), ('sym', 3, 3, 1), ('lap', 3, 3, 2), ('lap', 2, 2, 3), ('full', 3, 1, 3)]
    for par, T, n, it in L:
        r.append(('%s-%dx%d-%d' % (par, T, n, it), fit, dict(par=par, T=T, n=n, iters=it)))
    for kind in ('SmoothPrior', 'SparseSmoothPrior'):
        r.append(('lasso-%s' % kind, fit, dict(par='lap', T=2, n=2, iters=1, kind=kind)))
        r.append(('lasso-full-%s' % kind, fit, dict(par='full', T=1, n=1, iters=1, kind=kind)))
    return r
