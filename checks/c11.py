"""C11: every iterate of the errors-in-variables regression is the alternating minimiser: error of x first, parameters second."""
from checks.c10 import EIV, SPR, Prior, builders, expand, params, design, stack, dot
BOUNDS = ('1-2 samples of 1-2 nodes, 1-2 iterations (quick) / 2x2, 3 iterations (thorough); arbitrary data, weights (any symmetric matrix for one '
          'measurement, correlated real and imaginary parts for several), initial guess (not only symmetric), regularisation weight and prior; '
          'full, symmetric and Laplacian parametrisations; unweighted projection: 1 node symbolic, 2 nodes for three constant guesses')
OUTSIDE = 'singular systems; single precision rounding; convergence of the iteration; GPU kernels'
ASSUMPTIONS = ('a linear solver returns the solution of its (regular) system', 'the systems are regular')
TOL = 3e-3


def weight(h, name, N, full):
    np = h.np
    if full:
        q = h.real(name, (2 * N, 2 * N), lo=-0.3, hi=0.3)
        W = q + q.T + 3 * np.eye(2 * N)
    else:
        a, b, c = h.real(name + 'a', (N,), lo=1, hi=3), h.real(name + 'b', (N,), lo=1, hi=3), h.real(name + 'c', (N,), lo=-0.8, hi=0.8)
        W = np.zeros((2 * N, 2 * N))
        for i in range(N):
            W[i, i], W[N + i, N + i], W[i, N + i], W[N + i, i] = a[i], b[i], c[i], c[i]
    return W


def embed(h, Y, T, n):
    """real matrix of vec(X) -> vec(X Y), written out entry by entry"""
    np = h.np
    N = T * n
    E = np.zeros((2 * N, 2 * N))
    for c in range(n):
        for r in range(n):
            for t in range(T):
                i, j = c * T + t, r * T + t
                E[i, j] = E[N + i, N + j] = Y[r, c].real
                E[i, N + j], E[N + i, j] = -Y[r, c].imag, Y[r, c].imag
    return E


def rowsdot(M, v):
    return [dot([M[i, j] for j in range(len(v))], v) for i in range(M.shape[0])]


def guess(h, par, n, const):
    np = h.np
    if const is not None:
        return np.array(const)
    if par in ('full', 'default'):
        return h.cplx('y', (n, n))
    v = h.cplx('v', (dict(sym=n * (n + 1) // 2, lap=n * (n - 1) // 2)[par],))
    return np.array(expand(h, par, n, [v[i] for i in range(v.shape[0])]))


def fit(h, par, T, n, iters, weighted=True, full=False, const=None, kind='any', simple=False):
    np = h.np
    N = T * n
    X, Z = h.cplx('x', (T, n)), h.cplx('z', (T, n))
    Y0 = guess(h, par, n, const)
    lam = h.pyfloat('lam', lo=0.01, hi=2)
    b, m = builders(h, par, n)
    if kind == 'any':
        prior = Prior(h, 2 * m, simple)
    else:
        prior = getattr(h.mod(SPR), kind)(smoothness_param=0.5, n=2 * m)
        prior.add_sparsity_prior(np.arange(2 * m), None, h.mod(SPR).SmoothPrior.LAPLACE)
    Wx = Wz = None
    if weighted:
        Wx, Wz = weight(h, 'wx', N, full), weight(h, 'wz', N, full)
    reg = h.mod(EIV).BayesianEIVRegression(prior, lambda_value=lam, abs_tol=0.0, rel_tol=0.0, max_iterations=iters, verbose=False, **b)
    reg.fit(X, Z, h.sp.csr_matrix(Wx) if weighted else None, h.sp.csr_matrix(Wz) if weighted else None, Y0)
    its = reg.iterations
    h.check(len(its) == iters, 'one log entry per iteration')
    bv, a = stack(Z), stack(X)
    Yp = Y0
    for k in range(iters):
        Y = its[k].fitted_parameters
        p = params(h, par, n, Y)
        h.eq(Y, np.array(expand(h, par, n, [p[i] + 1j * p[m + i] for i in range(m)])), 'iterates lie in the parametrised set')
        if kind == 'any':
            h.eq(prior.args[k].ravel(), np.array(params(h, par, n, Yp)), 'the prior is evaluated at the previous iterate')
            M, mu, _ = prior.log[k]
            pen = prior.log[k + 1][2]
        else:
            w = [1 / (np.abs(e) + 0.5) for e in params(h, par, n, Yp)]
            M = np.array([[w[i] if i == j else 0.0 for j in range(2 * m)] for i in range(2 * m)])
            mu, pen = np.zeros(2 * m), sum([np.abs(e) + 0.5 for e in p])
        # error of x: minimises |z - (x - dx) y|^2 + |dx|^2 in the weighted norms
        if weighted:
            E = embed(h, Yp, T, n)
            EW = E.T @ Wz
            S = EW @ E + Wx
            dx = np.linalg.solve(S, EW @ E @ np.array(a) - EW @ np.array(bv))
            dxc = [dx[i] + 1j * dx[N + i] for i in range(N)]
            Xh = np.array([[X[t, c] - dxc[c * T + t] for c in range(n)] for t in range(T)])
        else:
            YH = np.conj(Yp).T
            Xh = (X + Z @ YH) @ np.linalg.inv(np.eye(n) + Yp @ YH)
            d = [X[t, c] - Xh[t, c] for c in range(n) for t in range(T)]
            dx = np.array([e.real for e in d] + [e.imag for e in d])
            Wx_ = Wz_ = None
        A = design(h, par, n, Xh)
        Ap = [dot([c[i] for c in A], p) for i in range(2 * N)]
        res = [b_ - a_ for b_, a_ in zip(bv, Ap)]
        w = (lambda v: rowsdot(Wz, v)) if weighted else (lambda v: v)
        wAp, wb = w(Ap), w(bv)
        lhs = [dot(A[i], wAp) + lam * dot([M[i, j] for j in range(2 * m)], p) for i in range(2 * m)]
        rhs = [dot(A[i], wb) + lam * mu[i] for i in range(2 * m)]
        h.eq(np.array(lhs), np.array(rhs), 'the parameters minimise the cost for the corrected x', tol=TOL)
        dxl = [dx[i] for i in range(2 * N)]
        cost = dot(res, w(res)) + dot(dxl, rowsdot(Wx, dxl) if weighted else dxl)
        h.eq(its[k].target_function, np.abs(cost + lam * pen), 'logged target = weighted squared errors of z and x + weighted penalty', tol=TOL)
        Yp = Y
    h.eq(reg.fitted_admittance_matrix, its[-1].fitted_parameters, 'the result is the last iterate')


class One(object):
    def __init__(self, np):
        self.np = np

    def log_distribution(self, y):
        return self.np.eye(2), self.np.zeros(2), 1.0


def oneweight(h, which, par, T, n, const):
    """with the weights of only one of the two measurements, both are projected without weights"""
    np = h.np
    N = T * n
    X, Z = h.cplx('x', (T, n)), h.cplx('z', (T, n))
    Y0 = np.array(const)
    b, m = builders(h, par, n)
    W = h.sp.csr_matrix(weight(h, 'w', N, False))
    r = []
    for ws in ((W, None) if which == 'x' else (None, W)), (None, None):
        reg = h.mod(EIV).BayesianEIVRegression(One(np), lambda_value=0.25, abs_tol=0.0, rel_tol=0.0, max_iterations=1, verbose=False, **b)
        reg.fit(X, Z, ws[0], ws[1], Y0)
        r.append(reg)
    h.eq(r[0].fitted_admittance_matrix, r[1].fitted_admittance_matrix, 'the result is the one without weights', tol=TOL)
    h.eq(r[0].iterations[0].target_function, r[1].iterations[0].target_function, 'the target is the one without weights', tol=TOL)


G = [[[1 + 1j, 0.5], [-1, 2j]], [[2, -1], [-1, 1]], [[0, 0], [0, 0]]]


def cases(tier):
    th = tier == 'thorough'
    r = []
    for par, T, n, it, kw in [('full', 1, 1, 1, dict(full=True)), ('full', 1, 1, 2, {}), ('full', 2, 1, 1, {}), ('full', 1, 2, 1, {}),
                              ('sym', 1, 2, 1, {}), ('lap', 1, 2, 2, {}), ('lap', 2, 2, 1, {}), ('default', 1, 1, 1, {})] + (
            [('full', 2, 2, 1, {}), ('lap', 2, 2, 2, {}), ('lap', 1, 3, 1, {}), ('sym', 2, 2, 1, {}), ('full', 1, 1, 3, {}), ('lap', 1, 2, 1, dict(full=True))] if th else []):
        r.append(('weighted-%s-%dx%d-%d%s' % (par, T, n, it, '-full' if kw.get('full') else ''), fit, dict(par=par, T=T, n=n, iters=it, **kw)))
    for par, T, n, it in [('full', 1, 1, 1), ('full', 2, 1, 2)]:
        r.append(('unweighted-%s-%dx%d-%d' % (par, T, n, it), fit, dict(par=par, T=T, n=n, iters=it, weighted=False)))
    for i, g in enumerate(G):
        for par in ('full', 'lap'):
            if par == 'lap' and i == 0:
                continue
            g_ = g if par == 'full' or i == 2 else [[1, -1], [-1, 1]]
            r.append(('unweighted-%s-2x2-%d' % (par, i), fit, dict(par=par, T=2 if th else 1, n=2, iters=1, weighted=False, const=g_)))
    for which in 'xz':
        r.append(('only-%s' % which, oneweight, dict(which=which, par='full', T=2, n=1, const=[[1 + 1j]])))
    for kind in ('SmoothPrior', 'SparseSmoothPrior'):
        r.append(('lasso-%s' % kind, fit, dict(par='lap', T=1, n=2, iters=1, kind=kind)))
    return r
