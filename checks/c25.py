"""C25: simulated measurements are interpolated, get sensor noise scaled by the ratings of the sensors, and are filtered."""
from checks.c24 import dirs, network, same
from engine.harness import match_draws
BOUNDS = ('2-3 buses in any listed order with one source or two, 2-3 samples, up to 5 instants, blocks of 1-3; every voltage, current, power, safety factor '
          'and every noise deviation >= 0')
OUTSIDE = 'long series (columns and blocks are independent, see C16); sampling frequencies beyond the listed ones; numpy file formats'
ASSUMPTIONS = ('numpy restores saved arrays unchanged', 'numpy.random.normal(loc, scale, size) is loc + scale * standard draw, one draw per element')


def ratings(h, ids, kinds, bs, three, factor):
    """apparent power of each node (and phase), times the safety factor; sources are rated for everything"""
    np = h.np
    P = 3 if three else 1
    S = []
    for b, k in zip(bs, kinds):
        for c in range(P):
            p, q = (b.Pd[c], b.Qd[c]) if k == 'a' else (b.Pd, b.Qd)
            S.append(factor[c] * np.sqrt(p * p + q * q) if k in 'la' else 0.0)
    tot = [sum(S[c::P]) for c in range(P)]
    return np.array([tot[j % P] if kinds[j // P] == 'p' else S[j] for j in range(len(S))])


def interp(Z, t, q, j):
    for a in range(len(t) - 1):
        if q <= t[a + 1]:
            return Z[a, j] + (Z[a + 1, j] - Z[a, j]) * (q - t[a]) / (t[a + 1] - t[a])
    return Z[len(t) - 1, j]


def setup(h, ids, kinds, three, times):
    np = h.np
    dirs(h)
    m, net, bs = network(h, ids, kinds, three)
    n, T = len(ids) * (3 if three else 1), len(times)
    V, I = h.cplx('v', (T, n), nonzero=True), h.cplx('i', (T, n), nonzero=True)
    if three:
        fac = h.real('f', (3,), lo=0)
        fv = [fac[c] for c in range(3)]
    else:
        fac = h.pyfloat('f', lo=0)
        fv = [fac]
    return m, net, bs, n, V, I, fac, fv


def blocks(h, Z, t, ts, f, n):
    S = len(ts) // f
    return h.np.array([[sum(interp(Z, t, ts[s * f + k], j) for k in range(f)) / f for j in range(n)] for s in range(S)])


def measure(h, ids, kinds, three, times, fmeas, steps, equiv, noise):
    """noisy and clean voltages and currents, ratings and block length"""
    np = h.np
    m, net, bs, n, V, I, fac, fv = setup(h, ids, kinds, three, times)
    R = ratings(h, ids, kinds, bs, three, fv)
    sd = [h.pyfloat(k, lo=0) if k[1] in noise else 0.0 for k in ('vm', 'im', 'vp', 'ip')]
    V0, I0 = V.copy(), I.copy()
    t = [float(x) for x in times]
    N = round(t[-1] * fmeas)
    f = N // steps
    if equiv:
        g, ts = 1, np.linspace(0, t[-1], round(t[-1] * fmeas / f))
        se = [s / np.sqrt(f) if not isinstance(s, float) or s else s for s in sd]
    else:
        g, ts, se = f, np.linspace(0, t[-1], N), sd
    args = (net, V, I, np.array(times)[:, None] if len(times) == 3 else np.array(times), fmeas, steps, (sd[0], sd[1], sd[2], sd[3], equiv, fac))
    r = m.add_noise_and_filter(*args, verbose=False)
    h.check(len(r) == 6, 'noisy and actual voltages and currents, ratings and block length')
    h.check(int(r[5]) == f, 'the block length')
    h.eq(r[4], R, 'ratings of the sensors')
    S = len(ts) // g
    for k in range(4):
        h.check(np.shape(r[k]) == (S, n), 'one sample per block')
    h.eq(r[2], blocks(h, V0, t, ts, g, n), 'actual voltages are block averages of the interpolation')
    h.eq(r[3], blocks(h, I0, t, ts, g, n), 'actual currents are block averages of the interpolation')
    h.eq(V, V0, 'the voltages given are kept')
    h.eq(I, I0, 'the currents given are kept')
    Z = np.hstack((V0, I0))
    got = np.hstack((np.asarray(r[0]), np.asarray(r[1])))
    ms = [se[0]] * n + [se[1] * R[j] for j in range(n)]
    ps = [se[2]] * n + [se[3]] * n
    X = np.array([[interp(Z, t, q, j) for j in range(2 * n)] for q in ts])
    k = len(noise)

    def f2(c, noise):
        k = len(noise)
        def value(i, *draws):
            s, j = i[0], c[i[1]]
            e = 0
            for b in range(g):
                z = X[s * g + b, j]
                d = list(draws[b * k:(b + 1) * k])
                a = d.pop(0) if 'm' in noise else 0
                p = d.pop(0) if 'p' in noise else 0
                z = np.abs(z) * (1 + ms[j] * a) * np.exp(1j * (np.angle(z) * (1 + ps[j] * p)))
                e = e + z
            return e / g
        return value
    if k == 0:
        h.eq(got, np.hstack((np.asarray(r[2]), np.asarray(r[3]))), 'without deviations there is no noise')
    else:
        # sensors of nodes without power have no magnitude noise on currents
        quiet = [j for j in range(n, 2 * n) if 'm' in noise and kinds[(j - n) // (3 if three else 1)] == 'z']
        if quiet and noise == 'm':
            h.eq(got[:, quiet], np.array([[sum(X[s * g + b, j] for b in range(g)) / g for j in quiet] for s in range(S)]), 'no power, no noise')
        elif quiet:
            match_draws(h, got[:, quiet], g, f2(quiet, 'p'), 'no power, no noise on magnitudes')
        c = [j for j in range(2 * n) if j not in quiet]
        match_draws(h, got[:, c], k * g, f2(c, noise), 'independent noise of each sensor and instant, scaled by its rating, then averaged')
    again = m.add_noise_and_filter(*args, verbose=False)
    same(h, again[:5], r[:5], 'the same noise is generated again')
    back = m.add_noise_and_filter(net, V, I, np.array(times), fmeas, steps, None, verbose=False)
    same(h, back[:4], r[:4], 'measurements read back')


def cases(tier):
    th = tier == 'thorough'
    r = []
    one = [([1, 2], 'pl'), ([7, 3], 'lp'), ([12, 5, 8], 'plp'), ([3, 9, 4], 'lzp')]
    three = [([1, 2], 'pa'), ([7, 3], 'lp')] + ([([12, 5, 8], 'apz')] if th else [])
    grids = [((0, 60), 1 / 15, 2), ((0, 60), 1 / 20, 2), ((0, 60, 120), 1 / 30, 1), ((0, 60, 120), 1 / 24, 2)]
    for t, L in ((False, one), (True, three)):
        for k, (ids, kinds) in enumerate(L):
            for q, (times, fm, st) in enumerate(grids):
                for equiv in (False, True):
                    f = round(times[-1] * fm) // st
                    for noise in ('', 'm', 'p', 'mp'):
                        g = 1 if equiv else f
                        if len(noise) * g > 2 and not (len(noise) == 1 and g == 2):
                            continue
                        if not th and t and (k, q) not in ((0, 0), (1, 1), (0, 2)):
                            continue
                        r.append(('%s%d-t%d-%s-%s' % ('31'[t is False], k, q, 'equivalent' if equiv else 'exact', noise or 'none'), measure,
                                  dict(ids=ids, kinds=kinds, three=t, times=times, fmeas=fm, steps=st, equiv=equiv, noise=noise)))
    return r
