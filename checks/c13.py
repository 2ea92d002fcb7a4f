"""C13: cartesian covariances of polar measurement noise equal their probabilistic definitions."""
NT = 'src.models.noise_transformation'
BOUNDS = ('up to 3 samples of 3 channels (quick) / up to 4x6 (thorough); every non-zero complex measurement, every magnitude deviation and phase '
          'deviation >= 0, common, per channel, single-element or of another length')
OUTSIDE = 'zero measurements (the phase is undefined); larger sizes (elements are independent); overflow for huge phase deviations'
ASSUMPTIONS = ('exp/cosh/sinh are related by their exponential definitions',)


def moments(h, z, sm, sp):
    """var(Re), var(Im), cov of (|z|+sm*e1) exp(i(arg z+sp*e2)) from the moments E exp(ik e) = exp(-k^2 sp^2/2)"""
    np = h.np
    x, y = z.real, z.imag
    m2 = x * x + y * y
    c2, s2 = (x * x - y * y) / m2, 2 * x * y / m2        # cos, sin of twice the phase
    e = lambda k: np.exp(-k * sp * sp)
    v = sm * sm
    re = (m2 + v) * (1 + c2 * e(2)) / 2 - m2 * (1 + c2) / 2 * e(1)
    im = (m2 + v) * (1 - c2 * e(2)) / 2 - m2 * (1 - c2) / 2 * e(1)
    co = (m2 + v) * s2 * e(2) / 2 - m2 * s2 / 2 * e(1)
    return re, im, co


def averaged(h, z, sm, sp):
    """expectation of moments() over the unknown true value, |z_true| = |z| - e1, arg z_true = arg z - e2"""
    np = h.np
    x, y = z.real, z.imag
    m2 = x * x + y * y
    c2, s2 = (x * x - y * y) / m2, 2 * x * y / m2
    e = lambda k: np.exp(-k * sp * sp)
    v = sm * sm
    re = (m2 + 2 * v) * (1 + c2 * e(4)) / 2 - (m2 + v) * (e(1) + c2 * e(3)) / 2
    im = (m2 + 2 * v) * (1 - c2 * e(4)) / 2 - (m2 + v) * (e(1) - c2 * e(3)) / 2
    co = (m2 + 2 * v) * s2 * e(4) / 2 - (m2 + v) * s2 * e(3) / 2
    return re, im, co


def linearised(h, z, sm, sp):
    x, y = z.real, z.imag
    m2 = x * x + y * y
    v, w = sm * sm, sp * sp
    return x * x / m2 * v + y * y * w, y * y / m2 * v + x * x * w, x * y / m2 * v - x * y * w


SPEC = {'exact': ('exact_noise_covariance', moments), 'naive': ('naive_noise_covariance', linearised),
        'average': ('average_true_noise_covariance', averaged)}


def sds(h, kind, n, pos=False):
    """a magnitude deviation argument and its value per channel"""
    np = h.np
    if kind == 'float':
        s = h.pyfloat('sm', lo=0, pos=pos)
        return s, [s] * n
    if kind == 'scalar':
        s = h.real('sm', lo=0, pos=pos)
        return s, [s] * n
    if kind == 'one':
        s = h.real('sm', (1,), lo=0, pos=pos)
        return s, [s[0]] * n
    if kind == 'array':
        s = h.real('sm', (n,), lo=0, pos=pos)
        return s, [s[i] for i in range(n)]
    if kind == 'const':                       # more entries than channels: the first one is used for every channel
        s = h.real('sm', (n + 1,), lo=0, pos=pos)
        return s, [s[0]] * n


def cov(h, which, T, n, kind):
    np, nt = h.np, h.mod(NT)
    Z = h.cplx('z', (T, n), nonzero=True)
    sm, smv = sds(h, kind, n)
    sp = h.pyfloat('sp', lo=0)
    fname, spec = SPEC[which]
    S = getattr(nt, fname)(Z, sm, sp, False)
    h.check(hasattr(S, 'toarray'), 'the covariance is sparse')
    S = S.toarray()
    N = T * n
    h.check(S.shape == (2 * N, 2 * N), 'the covariance has one row per real and imaginary part')
    E = [[0.0] * (2 * N) for _ in range(2 * N)]
    for j in range(n):
        for t in range(T):
            k = j * T + t
            re, im, co = spec(h, Z[t, j], smv[j], sp)
            E[k][k], E[N + k][N + k], E[k][N + k], E[N + k][k] = re, im, co, co
    h.eq(S, np.array(E), 'covariance of [Re; Im] of the stacked measurements')


def cases(tier):
    r = []
    for w in SPEC:
        for T, n in [(1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 3), (3, 1)] + ([(4, 6), (1, 9)] if tier == 'thorough' else []):
            for kind in ('float', 'array', 'one', 'scalar', 'const'):
                if kind == 'one' and n == 1:
                    continue
                r.append(('%s-%dx%d-%s' % (w, T, n, kind), cov, dict(which=w, T=T, n=n, kind=kind)))
    return r
