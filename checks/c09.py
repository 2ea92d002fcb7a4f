"""C09: ordinary and total least squares."""
from checks.c10 import REG, EIV
BOUNDS = ('ordinary: 2-3 samples of 1-2 regressors with 1-2 outputs (thorough: 3x2 complex with 2 outputs); total: 2-3 samples, 1-2 regressors, 1-2 outputs, one-dimensional '
          'output; all complex data of full column rank')
OUTSIDE = 'rank deficient data; the singular value decomposition itself (its defining equations are assumed); rounding'
ASSUMPTIONS = ('the pseudo inverse of a full column rank matrix is (x^H x)^-1 x^H', 'the singular value decomposition returns right singular vectors')


def cdot(a, b):
    return sum([x * y for x, y in zip(a, b)])


def ols(h, T, n, q):
    np = h.np
    X, Z = h.cplx('x', (T, n)), h.cplx('z', (T, q))
    m = h.mod(REG).ComplexRegression()
    m.fit(X, Z)
    Y = m.fitted_admittance_matrix
    h.check(Y.shape == (n, q), 'one column of parameters per output')
    R = X @ Y - Z
    h.eq(np.conj(X).T @ (X @ Y), np.conj(X).T @ Z, 'the residual is orthogonal to the regressors', tol=1e-6)


def ols_exact(h, T, n, q):
    np = h.np
    X, Y0 = h.cplx('x', (T, n)), h.cplx('y', (n, q))
    m = h.mod(REG).ComplexRegression()
    m.fit(X, X @ Y0)
    h.eq(m.fitted_admittance_matrix, Y0, 'noise-free data give the true parameters', tol=1e-5)


def tls(h, T, n, q, vec=False):
    np = h.np
    X, Z = h.cplx('x', (T, n)), h.cplx('z', (T, q))
    m = h.mod(EIV).TotalLeastSquares()
    m.fit(X, Z[:, 0] if vec else Z)
    Y = m.fitted_admittance_matrix
    h.check(Y.shape == ((n,) if q == 1 else (n, q)), 'shape of the parameters')
    Y = Y.reshape((n, q))
    # right singular vectors of the smallest singular values of [x z]
    u, s, vh = np.linalg.svd(np.hstack((X, Z)))
    V = np.conj(vh).T
    h.assume(detn(h, V[n:, n:]) != 0)
    h.eq(Y @ V[n:, n:], -V[:n, n:], 'the parameters are the null space [y; -1] of the closest consistent data', tol=1e-6)


def detn(h, M):
    d = M[0, 0] if M.shape[0] == 1 else M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    return d.real * d.real + d.imag * d.imag


def tls_exact(h, T, n):
    """[x, x y]: the smallest right singular vectors span its null space"""
    np = h.np
    X = h.real('x', (T, n), lo=-2, hi=2)
    y = h.real('y', (n, 1), lo=-2, hi=2)
    Z = X @ y
    M = np.hstack((X, Z))
    if h.symbolic:
        u, s, vh = np.linalg.svd(M)
        V = np.conj(vh).T
        h.assume(V[n, n] != 0)
        for t in range(T):
            h.assume(sum([M[t, j] * V[j, n] for j in range(n + 1)]) == 0)
        if n == 1:
            h.assume(X[0, 0] != 0)
        else:
            h.assume(X[0, 0] * X[1, 1] - X[0, 1] * X[1, 0] != 0)
    m = h.mod(EIV).TotalLeastSquares()
    m.fit(X, Z)
    h.eq(m.fitted_admittance_matrix, y[:, 0], 'noise-free data give the true parameters', tol=1e-4)


def inputs_kept(h):
    np = h.np
    X, Z = h.cplx('x', (2, 1)), h.cplx('z', (2, 1))
    X0, Z0 = X.copy(), Z.copy()
    for m in (h.mod(EIV).TotalLeastSquares(), h.mod(REG).ComplexRegression()):
        m.fit(X, Z)
    h.eq(X, X0, 'x is not modified')
    h.eq(Z, Z0, 'z is not modified')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for T, n, q in [(1, 1, 1), (2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2)] + ([(3, 1, 3), (3, 2, 1), (3, 2, 2), (3, 3, 1)] if th else []):
        r.append(('ols-%dx%d-%d' % (T, n, q), ols, dict(T=T, n=n, q=q)))
        r.append(('ols-exact-%dx%d-%d' % (T, n, q), ols_exact, dict(T=T, n=n, q=q)))
    for T, n, q in [(2, 1, 1), (3, 2, 1), (4, 2, 2), (2, 2, 2)] + ([(4, 3, 1), (5, 3, 2)] if th else []):
        r.append(('tls-%dx%d-%d' % (T, n, q), tls, dict(T=T, n=n, q=q)))
    r.append(('tls-vec', tls, dict(T=3, n=2, q=1, vec=True)))
    for T, n in [(2, 1), (2, 2)] + ([(3, 2)] if th else []):
        r.append(('tls-exact-%dx%d' % (T, n), tls_exact, dict(T=T, n=n)))
    r.append(('inputs', inputs_kept, {}))
    return r
