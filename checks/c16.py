"""C16: resampling is linear interpolation, then noise per series, then block averaging."""
NO = 'src.simulation.noise'
BOUNDS = ('2-4 original samples, up to 5 new samples, 1-2 series, blocks of 1 to 4 (quick) / 5, 7, 3, 4 (thorough); every complex measurement, every increasing '
          'sequence of original times, every new times in their range, every deviation per series or common')
OUTSIDE = 'new times outside the measured range (rejected by the interpolation); unsorted original times; larger sizes'
ASSUMPTIONS = ('scipy.interpolate.interp1d is piecewise linear interpolation with its documented bounds check',)


def setup(h, T, n):
    Z = h.cplx('z', (T, n))
    t = h.real('t', (T,))
    for a in range(T - 1):
        h.assume(t[a] < t[a + 1])
        if not h.symbolic:
            h.assume(t[a + 1] - t[a] > 1e-3)
    return Z, t


def interp(h, Z, t, q, j):
    for a in range(len(t) - 1):
        if q <= t[a + 1]:
            return Z[a, j] + (Z[a + 1, j] - Z[a, j]) * (q - t[a]) / (t[a + 1] - t[a])
    return Z[len(t) - 1, j]


def resample(h, T, N, n, f, kind):
    """noise functions of a known form: the result per series is known for every input"""
    np, no = h.np, h.mod(NO)
    Z, t = setup(h, T, n)
    q = h.real('q', (N,))
    for k in range(N):
        h.assume(q[k] >= t[0])
        h.assume(q[k] <= t[T - 1])
    kw = dict(noise_fcn=lambda x, m, p: x * m + p)
    one = [1.0] * n, [0.0] * n
    if kind == 'none':
        kw, (m, p) = {}, one
    elif kind == 'nostd':
        m, p = one
    elif kind == 'onlym':
        kw['std_m'] = h.real('m', (n,))
        m, p = one
    elif kind == 'onlyp':
        kw['std_p'] = h.real('p', (n,))
        m, p = one
    elif kind == 'nofcn':
        kw = dict(std_m=h.real('m', (n,)), std_p=h.real('p', (n,)))
        m, p = one
    else:
        m, p = (h.real('m', (n,)), h.real('p', (n,))) if kind != 'scalar' else ([h.pyfloat('m')] * n, [h.pyfloat('p')] * n)
        kw.update(std_m=m if kind != 'scalar' else m[0], std_p=p if kind != 'scalar' else p[0])
        if kind == 'list':
            kw.update(std_m=list(m), std_p=list(p))
        if kind == 'mixed':
            p = [h.pyfloat('ps')] * n
            kw['std_p'] = p[0]
        if kind == 'mixedp':
            m = [h.pyfloat('ms')] * n
            kw['std_m'] = m[0]
    Z0 = Z.copy()
    R = no.filter_and_resample_measurement(Z, oldtimes=t, newtimes=q, fparam=f, **kw)
    S = N // f
    h.check(R.shape == (S, n), 'one sample per complete block')
    E = [[sum(interp(h, Z0, t, q[s * f + k], j) * m[j] + p[j] for k in range(f)) / f for j in range(n)] for s in range(S)]
    h.eq(R, np.array(E) if S else np.zeros((0, n)), 'block averages of the noisy interpolation')
    h.eq(Z, Z0, 'the measurement is not modified')


def defaults(h, T, n, f, which):
    """without times, the samples themselves are filtered"""
    np, no = h.np, h.mod(NO)
    Z = h.cplx('z', (T, n))
    t = np.arange(T) * 1.0
    kw = {'both': {}, 'old': dict(newtimes=t), 'new': dict(oldtimes=t)}[which]
    R = no.filter_and_resample_measurement(Z, fparam=f, **kw)
    S = T // f
    E = [[sum(Z[s * f + k, j] for k in range(f)) / f for j in range(n)] for s in range(S)]
    h.check(R.shape == (S, n), 'one sample per complete block')
    h.eq(R, np.array(E), 'block averages of the samples')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for T, N, n, f in [(2, 1, 1, 1), (2, 2, 2, 1), (3, 2, 1, 1), (3, 2, 1, 2), (2, 4, 2, 2), (2, 5, 1, 2), (2, 4, 1, 3), (3, 4, 2, 2), (4, 3, 1, 3), (2, 5, 2, 4)] + \
            ([(2, 7, 3, 3), (4, 2, 2, 1), (5, 3, 1, 1)] if th else []):
        for kind in ('none', 'array', 'scalar', 'list', 'mixed', 'mixedp', 'nostd', 'nofcn', 'onlym', 'onlyp'):
            if th or kind in ('none', 'array') or (T, n) == (2, 2):
                r.append(('resample-%d-%dx%d-%d-%s' % (T, N, n, f, kind), resample, dict(T=T, N=N, n=n, f=f, kind=kind)))
    for T, n, f in [(2, 1, 1), (4, 2, 2), (5, 1, 2), (3, 2, 3)]:
        for w in ('both', 'old', 'new'):
            r.append(('defaults-%dx%d-%d-%s' % (T, n, f, w), defaults, dict(T=T, n=n, f=f, which=w)))
    return r
