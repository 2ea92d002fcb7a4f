"""C31: the information and covariance reported for the parameters are those of the equation errors."""
from checks.c28 import uncertainty
EV, MO = 'src.models.error_in_variable', 'src.models.matrix_operations'
BOUNDS = ('1-2 nodes, 1-3 samples (thorough: 3 nodes), dense or sparse covariances; every complex voltage, parameter and covariance without correlation between samples or channels '
          'and with positive variances, for which the information is invertible')
OUTSIDE = 'correlations between the errors of different outputs, which the method neglects (they are zero for one node); larger sizes; singular information matrices'
ASSUMPTIONS = ('numpy.linalg.inv is the inverse where the information is invertible',)


def covariance(h, name, N, fmt):
    """real and imaginary variances and their covariance per element"""
    np = h.np
    rr, ii, ri = h.real(name + 'r', (N,), lo=0.1), h.real(name + 'i', (N,), lo=0.1), h.real(name + 'c', (N,), lo=-0.05, hi=0.05)
    for k in range(N):
        h.assume(ri[k] ** 2 < rr[k] * ii[k])
    C = np.zeros((2 * N, 2 * N))
    for k in range(N):
        C[k, k], C[N + k, N + k], C[k, N + k], C[N + k, k] = rr[k], ii[k], ri[k], ri[k]
    return (h.sp.csr_matrix(C) if fmt == 'sparse' else C), (rr, ii, ri)


def info(h, T, n, fmt, inverse):
    np = h.np
    X, Z, Y = h.cplx('x', (T, n)), h.cplx('z', (T, n)), h.cplx('y', (n, n))
    CX, (a, b, c) = covariance(h, 'sx', n * T, fmt)
    CZ, (e, f, g) = covariance(h, 'sz', n * T, fmt)
    got = []
    if not inverse:
        h.mod(EV).np.linalg.inv = lambda M: (got.append(M), np.zeros(np.shape(M)))[1]
    given = [X.copy(), Z.copy(), Y.copy()]
    F, C = h.mod(EV).TotalLeastSquares().fisher_info(X, Z, CX, CZ, Y)
    # information: sum over samples and outputs of J' W^-1 J, with W the covariance of the error of x y - z
    E = [[0] * (2 * n * n) for _ in range(2 * n * n)]
    for t in range(T):
        for j in range(n):
            k = j * T + t
            W = [[e[k], g[k]], [g[k], f[k]]]
            for i in range(n):
                s, u, v = i * T + t, Y[i, j].real, Y[i, j].imag
                # error (dr + 1j di)(u + 1j v)
                r, m = (u, -v), (v, u)
                S = [[a[s], c[s]], [c[s], b[s]]]
                for p, P in enumerate((r, m)):
                    for q, Q in enumerate((r, m)):
                        W[p][q] = W[p][q] + sum(P[x] * S[x][y] * Q[y] for x in range(2) for y in range(2))
            det = W[0][0] * W[1][1] - W[0][1] * W[1][0]
            V = [[W[1][1] / det, -W[0][1] / det], [-W[1][0] / det, W[0][0] / det]]
            # sensitivities of the real and imaginary error to the parameters of column j
            J = {}
            for i in range(n):
                x = X[t, i]
                J[j * n + i] = (x.real, x.imag)
                J[n * n + j * n + i] = (-x.imag, x.real)
            for p, P in J.items():
                for q, Q in J.items():
                    E[p][q] = E[p][q] + sum(P[x] * V[x][y] * Q[y] for x in range(2) for y in range(2))
    h.eq(F, np.array(E), 'information of the samples')
    if inverse:
        N = 2 * n * n
        h.eq(np.array([[sum(E[p][k] * C[k, q] for k in range(N)) for q in range(N)] for p in range(N)]), np.eye(N), 'the covariance is the inverse of the information')
    else:
        h.check(len(got) == 1, 'one inversion')
        h.eq(got[0], F, 'the information is inverted')
    for p, q, s in zip((X, Z, Y), given, ('voltages', 'currents', 'parameters')):
        h.eq(p, q, 'the %s given are kept' % s)


def additive(h, T, n, fmt):
    """samples are independent: the information is the sum of that of each of them (see info for one sample)"""
    np = h.np
    X, Z, Y = h.cplx('x', (T, n)), h.cplx('z', (T, n)), h.cplx('y', (n, n))
    CX, sx = covariance(h, 'sx', n * T, fmt)
    CZ, sz = covariance(h, 'sz', n * T, fmt)
    got = []
    h.mod(EV).np.linalg.inv = lambda M: (got.append(M), 7 * np.ones(np.shape(M)))[1]

    def fim(x, z, cx, cz):
        F, C = h.mod(EV).TotalLeastSquares().fisher_info(x, z, cx, cz, Y)
        h.eq(got[-1], F, 'the information is inverted')
        h.eq(C, 7 * np.ones(np.shape(F)), 'its inverse is returned')
        return F
    F = fim(X, Z, CX, CZ)
    E = np.zeros(np.shape(F))
    for t in range(T):
        ks = [i * T + t for i in range(n)]
        ks += [n * T + k for k in ks]
        part = lambda C: (C.toarray() if hasattr(C, 'toarray') else C)[ks, :][:, ks]
        cx, cz = part(CX), part(CZ)
        if fmt == 'sparse':
            cx, cz = h.sp.csr_matrix(cx), h.sp.csr_matrix(cz)
        E = E + fim(X[t:t + 1, :], Z[t:t + 1, :], cx, cz)
    h.eq(F, E, 'information adds up over the samples')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for fmt in ('sparse', 'dense'):
        r.append(('info-1-%s' % fmt, info, dict(T=1, n=1, fmt=fmt, inverse=True)))
    for n in (2,) + ((3,) if th else ()):
        r.append(('info-%d' % n, info, dict(T=1, n=n, fmt='sparse', inverse=False)))
    for T, n in [(2, 1), (3, 1), (2, 2), (3, 2)] + ([(4, 1), (2, 3), (4, 2), (3, 3)] if th else []):
        for fmt in ('sparse', 'dense'):
            r.append(('additive-%dx%d-%s' % (T, n, fmt), additive, dict(T=T, n=n, fmt=fmt)))
    for lap in (False, True):
        for T, n in [(2, 1), (2, 2)] + ([(3, 2)] if th else []):
            r.append(('command-%s-%dx%d' % (lap, T, n), uncertainty, dict(T=T, n=n, lap=lap, N=2)))
    return r
