"""C14: noise covariances are valid covariances and the inverted form is their inverse."""
from checks.c13 import NT, SPEC, sds
BOUNDS = ('one to two samples of one to two channels (quick) / 3x3 (thorough); every non-zero measurement, magnitude deviation > 0 and phase '
          'deviation > 0; validity (positive variances and determinant) per measurement')
OUTSIDE = 'zero measurements; zero noise (the covariance is singular); the determinant of a single measurement is decided on a grid-free rational encoding of exp'
ASSUMPTIONS = ('exp/cosh/sinh are related by their exponential definitions',)


def inverse(h, which, T, n, kind):
    np, nt = h.np, h.mod(NT)
    Z = h.cplx('z', (T, n), nonzero=True)
    sm, smv = sds(h, kind, n, pos=True)
    sp = h.pyfloat('sp', lo=0.01, hi=1.5)
    f = getattr(nt, SPEC[which][0])
    N = T * n
    S = f(Z, sm, sp, False).toarray()
    W = f(Z, sm, sp, True)
    h.check(hasattr(W, 'toarray') and W.shape == (2 * N, 2 * N), 'the weight matrix is sparse and square')
    W = W.toarray()
    h.eq(W, W.T, 'the weight matrix is symmetric')
    for k in range(N):
        a, b, c = S[k, k], S[N + k, N + k], S[k, N + k]
        A, B, C = W[k, k], W[N + k, N + k], W[k, N + k]
        # multiplied out by the determinant: no division is left on the specification side
        d = a * b - c * c
        h.assume(d != 0)
        h.assume(a != 0)
        h.assume(b != 0)
        h.eq(np.array([A * d, B * d, C * d]), np.array([b, a, -c]), 'the weights of each measurement are the inverse of its covariance')
        for l in range(N):
            if l != k:
                h.eq(np.array([W[k, l], W[N + k, N + l], W[k, N + l], S[k, l], S[N + k, N + l], S[k, N + l]]), np.zeros(6),
                     'different measurements are uncorrelated')


def valid(h, which):
    np, nt = h.np, h.mod(NT)
    Z = h.cplx('z', (1, 1), nonzero=True)
    sm = h.pyfloat('sm', lo=0)
    sp = h.pyfloat('sp', lo=0)
    S = getattr(nt, SPEC[which][0])(Z, sm, sp, False).toarray()
    a, b, c = S[0, 0], S[1, 1], S[0, 1]
    t = 0 if h.symbolic else 1e-9 * (abs(Z[0, 0]) ** 2 + sm * sm)
    h.check(a >= -t, 'the variance of the real part is non-negative')
    h.check(b >= -t, 'the variance of the imaginary part is non-negative')
    h.check(a + b >= (0 if h.symbolic else -t), 'the total variance is non-negative')
    h.check(a * b - c * c >= -1e6 * t * t, 'the determinant is non-negative')


def nonoise(h, which):
    np, nt = h.np, h.mod(NT)
    Z = h.cplx('z', (2, 2), nonzero=True)
    S = getattr(nt, SPEC[which][0])(Z, 0.0, 0.0, False).toarray()
    h.eq(S, np.zeros((8, 8)), 'no noise, no covariance')


def cases(tier):
    r = []
    th = tier == 'thorough'
    for w in SPEC:
        for T, n in [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 3)] if th else []):
            for kind in ('float', 'array', 'one', 'scalar'):
                if kind == 'one' and n == 1:
                    continue
                r.append(('inverse-%s-%dx%d-%s' % (w, T, n, kind), inverse, dict(which=w, T=T, n=n, kind=kind)))
        r.append(('valid-%s' % w, valid, dict(which=w)))
        r.append(('nonoise-%s' % w, nonoise, dict(which=w)))
    return r
