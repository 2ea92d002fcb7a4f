"""C18: sequence and phase quantities are converted consistently and without loss."""
LI = 'src.simulation.lines'
BOUNDS = 'every complex measurement matrix up to 3 samples of 3 nodes (thorough 4x5), every complex admittance matrix of 1 to 3 nodes (thorough 5)'
OUTSIDE = 'larger sizes (nodes are independent blocks); numbers of columns that are no multiple of three'
ASSUMPTIONS = ('exact cos and sin of 120 degrees',)


def A(h):
    """columns of phase components of zero, positive and negative sequence"""
    a = -0.5 + 1j * h.np.sqrt(3.0) / 2
    return [[1, 1, 1], [1, a * a, a], [1, a, a * a]]


def measurement(h, T, n):
    np, li = h.np, h.mod(LI)
    X = h.cplx('x', (T, 3 * n))
    X0 = X.copy()
    M = A(h)
    P = li.measurement_sequence_to_phase(X)
    E = [[sum(M[c % 3][k] * X[t, 3 * (c // 3) + k] for k in range(3)) for c in range(3 * n)] for t in range(T)]
    h.eq(P, np.array(E), 'phases are sums of their zero, positive and negative sequence components')
    h.eq(li.measurement_phase_to_sequence(P), X, 'sequence components are recovered')
    h.eq(li.measurement_sequence_to_phase(li.measurement_phase_to_sequence(X)), X, 'phases are recovered')
    h.eq(X, X0, 'the measurement is not modified')


def balanced(h, n):
    """a balanced positive sequence system has only the positive component"""
    np, li = h.np, h.mod(LI)
    v = h.cplx('v', (n,))
    M = A(h)
    X = np.zeros((1, 3 * n)) * 1j
    E = np.zeros((1, 3 * n)) * 1j
    for k in range(n):
        for p in range(3):
            X[0, 3 * k + p] = v[k] * M[p][1]
        E[0, 3 * k + 1] = v[k]
    h.eq(li.measurement_phase_to_sequence(X), E, 'a balanced system has only the positive sequence')


def admittance(h, n):
    np, li = h.np, h.mod(LI)
    Y = h.cplx('y', (3 * n, 3 * n))
    Y0 = Y.copy()
    P = li.admittance_sequence_to_phase(Y)
    h.eq(li.admittance_phase_to_sequence(P), Y, 'sequence admittances are recovered')
    S = li.admittance_phase_to_sequence(Y)
    h.eq(li.admittance_sequence_to_phase(S), Y, 'phase admittances are recovered')
    h.eq(Y, Y0, 'the admittance is not modified')


def law(h, n):
    """i = Y v in sequence components is the same law in phases (column vectors as rows of measurements)"""
    np, li = h.np, h.mod(LI)
    Y = h.cplx('y', (3 * n, 3 * n))
    v = h.cplx('v', (1, 3 * n))
    P = li.admittance_sequence_to_phase(Y)
    vp = li.measurement_sequence_to_phase(v)
    i = (Y @ v.T).T
    h.eq((P @ vp.T).T, li.measurement_sequence_to_phase(i), 'currents follow from voltages in phases as in sequence components')
    S = li.admittance_phase_to_sequence(Y)
    vs = li.measurement_phase_to_sequence(v)
    h.eq((S @ vs.T).T, li.measurement_phase_to_sequence(i), 'currents follow from voltages in sequence components as in phases')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for T, n in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 3), (1, 4)] + ([(4, 5), (1, 7)] if th else []):
        r.append(('measurement-%dx%d' % (T, n), measurement, dict(T=T, n=n)))
    for n in (1, 2, 3) + ((4, 5) if th else ()):
        r.append(('balanced-%d' % n, balanced, dict(n=n)))
        r.append(('admittance-%d' % n, admittance, dict(n=n)))
        r.append(('law-%d' % n, law, dict(n=n)))
    return r
