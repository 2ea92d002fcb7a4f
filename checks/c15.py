"""C15: injected measurement noise is the documented one, independent per measurement and channel."""
from engine.harness import match_draws
NO = 'src.simulation.noise'
BOUNDS = ('up to 3x3 (quick) / 4x5 (thorough) complex measurements; every value, every deviation or accuracy >= 0 given as number, single element, '
          'one per channel or another length, and every value of the random draws')
OUTSIDE = 'the distribution of the generator itself (draws are arbitrary values of a standard normal generator); larger sizes (elements are independent)'
ASSUMPTIONS = ('numpy.random.normal(loc, scale, size) is loc + scale * standard draw, one draw per element',)


def dev(h, name, kind, n):
    """a deviation argument and its value per channel"""
    if kind == 'float':
        s = h.pyfloat(name, lo=0)
        return s, [s] * n
    if kind == 'scalar':
        s = h.real(name, lo=0)
        return s, [s] * n
    m = {'one': 1, 'array': n, 'other': n + 1}[kind]
    s = h.real(name, (m,), lo=0)
    return s, [s[i] for i in range(n)] if kind == 'array' else [s[0]] * n


def polar_value(h, z, s, p):
    """(relative) magnitude noise s and phase noise p on z"""
    np = h.np
    return np.abs(z) * (1 + s) * np.exp(1j * (np.angle(z) * (1 + p)))


def polar(h, T, n, km, kp):
    np, no = h.np, h.mod(NO)
    Z = h.cplx('z', (T, n), nonzero=True)
    sm, smv = dev(h, 'sm', km, n)
    sp, spv = dev(h, 'sp', kp, n)
    Z0 = Z.copy()
    Y = no.add_polar_noise_to_measurement(Z, sm, sp)
    h.check(Y.shape == (T, n), 'one noisy value per measurement')
    match_draws(h, Y, 2, lambda i, a, b: polar_value(h, Z0[i], smv[i[1]] * a, spv[i[1]] * b), 'magnitude and phase are scaled by 1 + deviation * draw')
    h.eq(Z, Z0, 'the measurement is not modified')


def zero(h, T, n):
    """a zero measurement stays zero, zero noise changes nothing"""
    np, no = h.np, h.mod(NO)
    Z = h.cplx('z', (T, n), nonzero=True)
    h.eq(no.add_polar_noise_to_measurement(Z, 0.0, 0.0), Z, 'no polar noise')
    h.eq(no.add_polar_noise_to_measurement(Z, np.zeros(n), np.zeros(n)), Z, 'no polar noise per channel')
    Y, a, b = no.add_cartesian_noise_to_measurement(Z, 0.0, 0.0)
    h.eq(Y, Z, 'no cartesian noise')
    h.eq(a, np.zeros(n), 'no real noise')
    h.eq(b, np.zeros(n), 'no imaginary noise')
    O = np.zeros((T, n)) * 1j
    h.eq(no.add_polar_noise_to_measurement(O, h.pyfloat('sm', lo=0), h.pyfloat('sp', lo=0)), O, 'a zero measurement stays zero')


def cartesian(h, T, n):
    np, no = h.np, h.mod(NO)
    Z = h.cplx('z', (T, n))
    ra, ia = h.pyfloat('ra', lo=0), h.pyfloat('ia', lo=0)
    Y, rs, im = no.add_cartesian_noise_to_measurement(Z, ra, ia)
    rsv = [sum(abs(Z[t, j].real) for t in range(T)) / T * ra / 3 for j in range(n)]
    imv = [sum(abs(Z[t, j].imag) for t in range(T)) / T * ia / 3 for j in range(n)]
    h.eq(rs, np.array(rsv), 'a third of the accuracy times the mean absolute real part')
    h.eq(im, np.array(imv), 'a third of the accuracy times the mean absolute imaginary part')
    h.check(Y.shape == (T, n), 'one noisy value per measurement')
    match_draws(h, Y, 2, lambda i, a, b: Z[i] + rsv[i[1]] * a + 1j * imv[i[1]] * b, 'real and imaginary part are shifted by deviation * draw')


def wrappers(h, T, n):
    """the two-signal versions: voltage first, and each accuracy on its signal"""
    np, no = h.np, h.mod(NO)
    I, V = h.cplx('i', (T, n), nonzero=True), h.cplx('v', (T, n), nonzero=True)
    a, b = h.pyfloat('a', lo=0), h.pyfloat('b', lo=0)
    nv, nc = no.add_noise_in_polar_coordinates(I, V, a, b)
    both = np.concatenate([nv, nc], axis=0)
    src = np.concatenate([V, I], axis=0)
    match_draws(h, both, 2, lambda i, p, q: polar_value(h, src[i], a * p, b * q), 'noisy voltage and current, in this order')


def wrapperc(h, T, n):
    np, no = h.np, h.mod(NO)
    I, V = h.cplx('i', (T, n)), h.cplx('v', (T, n))
    a, b = h.pyfloat('a', lo=0), h.pyfloat('b', lo=0)
    nv, nc = no.add_noise_in_cartesian_coordinates(I, V, a, b)
    both = np.concatenate([nv, nc], axis=0)
    src = np.concatenate([V, I], axis=0)

    def f(i, p, q):
        M, acc = (V, b) if i[0] < T else (I, a)
        re = sum(abs(M[t, i[1]].real) for t in range(T)) / T * acc / 3
        im = sum(abs(M[t, i[1]].imag) for t in range(T)) / T * acc / 3
        return src[i] + re * p + 1j * im * q
    match_draws(h, both, 2, f, 'noisy voltage and current, each with its own accuracy')


def cases(tier):
    r = []
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 2), (2, 3), (3, 3)] + ([(4, 5), (1, 7)] if tier == 'thorough' else [])
    kinds = ('float', 'scalar', 'one', 'array', 'other')
    for T, n in sizes:
        for km in kinds:
            for kp in kinds:
                if T * n < 4 and n > 1 or km == kp or 'float' in (km, kp) and tier == 'thorough':
                    r.append(('polar-%dx%d-%s-%s' % (T, n, km, kp), polar, dict(T=T, n=n, km=km, kp=kp)))
        r.append(('cartesian-%dx%d' % (T, n), cartesian, dict(T=T, n=n)))
    for T, n in [(2, 1), (1, 2), (2, 2)]:
        r.append(('zero-%dx%d' % (T, n), zero, dict(T=T, n=n)))
    for T, n in [(2, 1), (1, 2)]:
        r.append(('wrappers-%dx%d' % (T, n), wrappers, dict(T=T, n=n)))
        r.append(('wrapperc-%dx%d' % (T, n), wrapperc, dict(T=T, n=n)))
    return r
