"""C08: the quadratic surrogate of the prior (iteratively reweighted) and its agreement between dense and sparse priors."""
from checks.c07 import new, rows, SPR
BOUNDS = ('up to 3 rows over 2-3 parameters (quick), 5 rows over 4 (thorough); arbitrary rows, offsets, points, smoothing constant > 0; every '
          'assignment of the orders 0, 1, 2')
OUTSIDE = 'fractional orders; non-positive smoothing constants; larger priors'


def surrogate(h, cls, r, n, col):
    np = h.np
    al = h.pyfloat('alpha', lo=0.001)
    p = new(h, cls, n, alpha=al)
    L, mu, x = h.real('L', (r, n)), h.real('mu', (r,)), h.real('x', (n,))
    g = [h.int('g%d' % i, 0, 2) for i in range(r)]
    p.L = h.sp.csr_matrix(L) if cls.startswith('Sparse') else L
    p.mu, p.gamma = mu, np.array([float(a) for a in g])
    A, b, pen = p.log_distribution(x.reshape((n, 1)) if col else x)
    res = [sum([L[i, j] * x[j] for j in range(n)]) - mu[i] for i in range(r)]
    w = [(1 if g[i] == 2 else np.abs(res[i]) if g[i] == 1 else res[i] * res[i]) + al for i in range(r)]
    wi = [1 / a for a in w]
    expA = np.array([[sum([L[i, a] * L[i, c] * wi[i] for i in range(r)]) for c in range(n)] for a in range(n)])
    expb = np.array([sum([L[i, a] * mu[i] * wi[i] for i in range(r)]) for a in range(n)])
    A = rows(h, A)
    h.eq(A, expA, 'A = L^T W L with W the inverse smoothed residual powers')
    h.eq(b, expb, 'b = L^T W mu')
    if all(e == 1 for e in g):
        h.eq(pen, sum([np.abs(e) for e in res]) + r * al, 'for l1 orders the penalty is the l1 norm of the residual, smoothed')
    h.eq(A, A.T, 'A is symmetric')
    h.eq(rows(h, p.L), L, 'evaluating the prior does not change it')


def agree(h, r, n):
    np = h.np
    al = h.pyfloat('alpha', lo=0.001)
    L, mu, x = h.real('L', (r, n)), h.real('mu', (r,)), h.real('x', (n,))
    g = [h.int('g%d' % i, 0, 2) for i in range(r)]
    out = []
    for cls in ('SmoothPrior', 'SparseSmoothPrior'):
        p = new(h, cls, n, alpha=al)
        p.L = h.sp.csr_matrix(L) if cls.startswith('Sparse') else L
        p.mu, p.gamma = mu, np.array([float(a) for a in g])
        out.append(p.log_distribution(x))
    for i, nm in enumerate(['A', 'b', 'penalty']):
        h.eq(rows(h, out[1][i]), rows(h, out[0][i]), 'dense and sparse priors agree on ' + nm)


def history(h, cls):
    """a prior built through its operations: smoothed residuals of exactly those items"""
    np = h.np
    al = h.pyfloat('alpha', lo=0.001)
    p = new(h, cls, 2, alpha=al)
    v, w, s = h.pyfloat('v'), h.pyfloat('w', pos=True), h.real('s', (2,), nonzero=True)
    x = h.real('x', (2,))
    S = h.mod(SPR).SmoothPrior
    p.add_exact_prior(np.array([1]), np.array([v]), w, S.GAUSS)
    p.add_adaptive_sparsity_prior(np.arange(2), s, S.LAPLACE)
    A, b, pen = p.log_distribution(x)
    h1 = [1 / (np.abs(x[i] / s[i]) + al) for i in range(2)]
    g = w * w / (1 + al)
    h.eq(rows(h, A), np.array([[h1[0] / (s[0] * s[0]), 0], [0, h1[1] / (s[1] * s[1]) + g]]), 'A of a ridge + adaptive lasso prior')
    h.eq(b, np.array([0, g * v]), 'b of a ridge + adaptive lasso prior')


def copied(h, cls, r, n):
    """a prior copied from another one has the same surrogate, with its own smoothing constant"""
    np = h.np
    al, be = h.pyfloat('alpha', lo=0.001), h.pyfloat('beta', lo=0.001)
    L, mu, x = h.real('L', (r, n)), h.real('mu', (r,)), h.real('x', (n,))
    g = [h.int('g%d' % i, 0, 2) for i in range(r)]
    p = new(h, cls, n, alpha=al)
    p.L = h.sp.csr_matrix(L) if cls.startswith('Sparse') else L
    p.mu, p.gamma = mu, np.array([float(a) for a in g])
    want = p.log_distribution(x)
    for o, e in ((new(h, cls, n, other=p, alpha=al), want), (new(h, cls, n, other=p, alpha=be), None), (p, want)):
        got = o.log_distribution(x)
        if e is None:
            p.alpha = be
            e = p.log_distribution(x)
            p.alpha = al
        for i, nm in enumerate(['A', 'b', 'penalty']):
            h.eq(rows(h, got[i]), rows(h, e[i]), '%s of a prior copied from another' % nm)


def cases(tier):
    th = tier == 'thorough'
    r = []
    for cls in ('SmoothPrior', 'SparseSmoothPrior'):
        for m, n in [(1, 1), (1, 2), (2, 2), (3, 2)] + ([(3, 3), (5, 2), (4, 4)] if th else []):
            r.append(('surrogate-%s-%dx%d' % (cls, m, n), surrogate, dict(cls=cls, r=m, n=n, col=(m + n) % 2 == 0)))
        for m, n in [(2, 2)] + ([(3, 2), (1, 3)] if th else []):
            r.append(('copied-%s-%dx%d' % (cls, m, n), copied, dict(cls=cls, r=m, n=n)))
        r.append(('history-%s' % cls, history, dict(cls=cls)))
    for m, n in [(1, 1), (2, 2), (3, 2)] + ([(3, 3)] if th else []):
        r.append(('agree-%dx%d' % (m, n), agree, dict(r=m, n=n)))
    return r
