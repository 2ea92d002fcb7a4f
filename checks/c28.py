"""C28: the identification steps centre, weight, separate and save the data as documented."""
import inspect
from checks.c24 import dirs, same
I1, I3, MO, NT = 'src.identification.run', 'src.identification.run3ph', 'src.models.matrix_operations', 'src.models.noise_transformation'
RE, EV, AM = 'src.models.regression', 'src.models.error_in_variable', 'src.models.abstract_models'
BOUNDS = ('1-3 channels (three-phase: 3-6 in any listed order), 2-3 samples, 0-3 logged iterations; every voltage, current, estimate, deviation and rating; '
          'Laplacian or not, weighted or not, synchronised or not')
OUTSIDE = 'the estimators themselves (see C09-C12), the covariances (C13, C14) and the priors (C27): stand-ins supply arbitrary estimates; known lines; numpy file formats'
ASSUMPTIONS = ('numpy restores saved arrays unchanged',)


def estimators(h, n_of, log):
    """stand-ins that record how they are built and called and return arbitrary matrices"""
    re, ev, am = h.mod(RE), h.mod(EV), h.mod(AM)
    mods = [h.mod(I1), h.mod(I3), re, ev]
    for src, name in ((re, 'ComplexRegression'), (re, 'BayesianRegression'), (ev, 'TotalLeastSquares'), (ev, 'BayesianEIVRegression')):
        real = getattr(src, name)

        def make(real=real, name=name):
            class Stand(object):
                def __init__(self, *a, **k):
                    b = inspect.signature(real.__init__).bind(self, *a, **k)
                    b.apply_defaults()
                    self.made = dict(b.arguments)
                    self.fitted_admittance_matrix, self.iterations = None, None

                def fit(self, *a, **k):
                    b = inspect.signature(real.fit).bind(self, *a, **k)
                    c = {x: (v.copy() if hasattr(v, 'copy') else v) for x, v in b.arguments.items() if x != 'self'}
                    k = sum(e['name'] == name for e in log)
                    n = h.np.shape(c['x'])[1]
                    self.fitted_admittance_matrix = h.cplx('%s%d' % (name, k), (n, n))
                    self.iterations = [am.IterationStatus(j, h.cplx('%s%di%d' % (name, k, j), (n, n)), h.pyfloat('%s%dt%d' % (name, k, j)))
                                       for j in range(n_of(k))]
                    log.append(dict(name=name, made=self.made, fit=c, est=self.fitted_admittance_matrix, its=self.iterations))

                def fisher_info(self, *a, **k):
                    b = inspect.signature(real.fisher_info).bind(self, *a, **k)
                    c = {x: (v.copy() if hasattr(v, 'copy') else v) for x, v in b.arguments.items() if x != 'self'}
                    n = h.np.shape(c['x'])[1]
                    f, q = h.real('fim', (2 * n * n, 2 * n * n)), h.real('cov', (2 * n * n, 2 * n * n))
                    log.append(dict(name='fisher', fit=c, est=(f, q)))
                    return f.copy(), q.copy()
            return Stand
        s = make()
        for m in mods:
            if hasattr(m, name):
                setattr(m, name, s)


def centred(h, V, lap, volt):
    np = h.np
    T, n = np.shape(V)
    if lap:
        if not volt:
            return V
        m = sum(V[t, j] for t in range(T) for j in range(n)) / (T * n)
        return np.array([[V[t, j] - m for j in range(n)] for t in range(T)])
    return np.array([[V[t, j] - sum(V[s, j] for s in range(T)) / T for j in range(n)] for t in range(T)])


def dense(h, M):
    return M.toarray() if hasattr(M, 'toarray') else h.np.asarray(M)


def same_prior(h, a, b, label):
    h.check(a.n == b.n, label + ': as many parameters')
    h.eq(dense(h, a.L), dense(h, b.L), label + ': rows')
    h.eq(a.mu, b.mu, label + ': centers')
    h.eq(a.gamma, b.gamma, label + ': orders')
    h.eq(a.alpha, b.alpha, label + ': smoothness')


def bases(h, made, n, lap):
    mo = h.mod(MO)
    D, E = mo.duplication_matrix(n), mo.elimination_sym_matrix(n)
    if lap:
        D, E = D @ mo.transformation_matrix(n), mo.elimination_lap_matrix(n) @ E
    h.eq(dense(h, made['dt_matrix_builder'](n)), dense(h, D), 'expansion of the parameters')
    h.eq(dense(h, made['e_matrix_builder'](n)), dense(h, E), 'elimination to the parameters')


def settings(h, made, iters, lam):
    c = h.mod('conf.identification')
    h.check(made['max_iterations'] == iters, 'number of iterations')
    for k, v in (('lambda_value', getattr(c, lam)), ('abs_tol', c.abs_tol), ('rel_tol', c.rel_tol)):
        h.check(float(made[k]) == float(v), 'configured ' + k)


def groups(ids, n):
    if ids is None:
        return [list(range(n))]
    return [[j for j in range(n) if ids[j] == s] for s in range(3)]


def lasso_prior(h, Y, lap):
    mo = h.mod(MO)
    return h.mod(I1).build_lasso_prior(h.np.shape(Y)[0], Y, lap)


def standard(h, T, n, lap, iters, three, ids):
    """least squares, total least squares and lasso on the centred data"""
    np = h.np
    dirs(h)
    log = []
    estimators(h, lambda k: 1, log)
    m = h.mod(I3 if three else I1)
    V, I = h.cplx('v', (T, n)), h.cplx('i', (T, n))
    V0, I0 = V.copy(), I.copy()
    ph = None if ids is None else np.array(ids)
    r = m.standard_methods('net', V, I, ph, lap, iters, verbose=False)
    h.check(len(r) == 3, 'three estimates')
    exp = [np.zeros((n, n)) * 1j for _ in range(3)]
    for s, g in enumerate(groups(ids, n)):
        x, z = centred(h, V0[:, g], lap, True), centred(h, I0[:, g], lap, False)
        calls = []
        for k, name in enumerate(('ComplexRegression', 'TotalLeastSquares', 'BayesianRegression')):
            c = [e for e in log if e['name'] == name]
            if name == 'BayesianRegression' and iters == 0:
                h.check(not c, 'no lasso without iterations')
                calls.append(calls[0])
                continue
            h.check(len(c) == len(groups(ids, n)), 'every estimator is fitted once')
            c = c[s]
            calls.append(c)
            f = c['fit']
            h.eq(f['x'], x, 'centred voltages')
            h.eq(f['z'] if 'z' in f else f['y'], z, 'centred currents')
        if iters:
            c = calls[2]
            y = calls[0]['est']
            h.eq(c['fit']['y_init'], (y + y.T) / 2, 'the lasso starts from the symmetric part of least squares')
            settings(h, c['made'], iters, 'lambda_lasso')
            bases(h, c['made'], len(g), lap)
            same_prior(h, c['made']['prior'], lasso_prior(h, y, lap), 'adaptive lasso')
        for k in range(3):
            for a, i in enumerate(g):
                for b, j in enumerate(g):
                    exp[k][i, j] = calls[k]['est'][a, b]
    for k in range(3):
        h.eq(r[k], exp[k], 'estimates of each sequence in their places' if ids else 'estimates')
    h.eq(V, V0, 'the voltages given are kept')
    h.eq(I, I0, 'the currents given are kept')
    k = len(log)
    for a in ((None, I), (V, None), (None, None)):
        same(h, m.standard_methods('net', *a, ph, lap, iters, verbose=False), r, 'estimates read back')
    h.check(len(log) == k, 'saved estimates are not computed again')


def bayes(h, T, n, lap, weighted, pmu, ids, its):
    """errors-in-variables regression: centred data, weights of the noise, prior of the initial estimate"""
    np = h.np
    dirs(h)
    log = []
    estimators(h, lambda k: its[k % len(its)], log)
    m = h.mod(I3 if ids is not None else I1)
    V, I, Y = h.cplx('v', (T, n), nonzero=True), h.cplx('i', (T, n), nonzero=True), h.cplx('y', (n, n))
    sv, si, R = h.cplx('sv'), h.cplx('si'), h.real('r', (n,), lo=0)
    given = [V.copy(), I.copy(), Y.copy(), R.copy()]
    ph = None if ids is None else np.array(ids)
    arg = lambda k: ('net', V, I, ph, sv, si, R, Y, None, lap, weighted, k, pmu)
    r = m.bayesian_eiv(*arg(7), verbose=False)
    nt, conf = h.mod(NT), h.mod('conf.identification')
    exp = np.zeros((n, n)) * 1j
    gs = groups(ids, n)
    h.check(len(log) == len(gs), 'one regression' + (' per sequence' if ids else ''))
    for s, g in enumerate(gs):
        c = log[s]
        f = c['fit']
        v, i, y, q = given[0][:, g], given[1][:, g], given[2][g, :][:, g], given[3][g]
        if not pmu:
            v, i = np.abs(v), i * v.conj() / np.abs(v)
        x = centred(h, v, lap, True)
        h.eq(f['x'], x, 'centred voltages' if pmu else 'centred voltage magnitudes')
        h.eq(f['z'], centred(h, i, lap, False), 'centred currents' if pmu else 'centred currents relative to the voltage phase')
        if weighted and pmu:
            wx = dense(h, nt.average_true_noise_covariance(v, np.real(sv), np.imag(sv), True))
            wz = dense(h, nt.average_true_noise_covariance(i, np.real(si) * q, np.imag(si), True))
        elif weighted:
            wx = dense(h, nt.naive_noise_covariance(v, np.real(sv), np.imag(sv) * 100, False))
            wx = np.diag(1 / np.diag(wx))
            wz = dense(h, nt.naive_noise_covariance(i, np.real(si) * q, np.imag(si), True))
        if weighted:
            h.eq(dense(h, f['x_weight']), wx, 'weights of the voltages')
            h.eq(dense(h, f['z_weight']), wz, 'weights of the currents')
        else:
            h.check(f['x_weight'] is None and f['z_weight'] is None, 'no weights')
        h.eq(f['y_init'], y, 'initial estimate')
        settings(h, c['made'], 7, 'lambda_eiv')
        bases(h, c['made'], len(g), lap)
        same_prior(h, c['made']['prior'], h.mod(I1).build_complex_prior(len(g), conf.lambdaprime, y, lap, conf.use_tls_diag, conf.contrast_each_row,
                                                                        conf.regularize_diag), 'prior of the initial estimate')
        for a, k in enumerate(g):
            for b, l in enumerate(g):
                exp[k, l] = c['est'][a, b]
    h.eq(r[0], exp, 'the estimate')
    iterations(h, r[1], log, gs, n, 'logged iterations')
    for a, b, s in zip((V, I, Y, R), given, ('voltages', 'currents', 'initial estimate', 'ratings')):
        h.eq(a, b, 'the %s given are kept' % s)
    b = m.bayesian_eiv(*arg(0), verbose=False)
    h.check(len(log) == len(gs), 'saved estimates are not computed again')
    h.eq(b[0], exp, 'the estimate read back')
    iterations(h, b[1], log, gs, n, 'iterations read back')


def iterations(h, got, log, gs, n, label):
    np = h.np
    L = min(len(c['its']) for c in log)
    h.check(len(got) == L, label + ': as many as logged for every sequence')
    for k in range(L):
        E = np.zeros((n, n)) * 1j
        for c, g in zip(log, gs):
            for a, i in enumerate(g):
                for b, j in enumerate(g):
                    E[i, j] = c['its'][k].fitted_parameters[a, b]
        h.eq(got[k].fitted_parameters, E, label + ': parameters')
        h.eq(got[k].target_function, sum(c['its'][k].target_function for c in log), label + ': costs')
        h.check(int(got[k].iteration) == k, label + ': numbers')


def noseq(h):
    """without sequences, three-phase regression is refused"""
    np = h.np
    dirs(h)
    estimators(h, lambda k: 1, [])
    V, I, Y = h.cplx('v', (2, 3)), h.cplx('i', (2, 3)), h.cplx('y', (3, 3))
    h.raises(NotImplementedError, lambda: h.mod(I3).bayesian_eiv('net', V, I, np.array([1, 2, 3]), 1j, 1j, np.ones(3), Y, None, False, False, 3, True, verbose=False),
             'not implemented')


def uncertainty(h, T, n, lap, N):
    """error covariance: noise of the measurements, centred data; expected deviation over samples of the distribution"""
    np = h.np
    dirs(h)
    log, draws = [], []
    estimators(h, lambda k: 1, log)
    m = h.mod(I1)
    V, I, Y = h.cplx('v', (T, n), nonzero=True), h.cplx('i', (T, n), nonzero=True), h.cplx('y', (n, n), nonzero=True)
    sv, si, R = h.cplx('sv'), h.cplx('si'), h.real('r', (n,), lo=0)
    given = [V.copy(), I.copy(), Y.copy(), R.copy()]

    def mvn(mean, cov, size=None, *a, **k):
        draws.append((mean, cov, size))
        return h.real('s%d' % len(draws), (int(size), len(mean)))
    np.random.multivariate_normal = mvn
    r = m.eiv_fim('net', V, I, sv, si, R, Y, N, lap, verbose=False)
    h.check(len(log) == 1 and log[0]['name'] == 'fisher', 'the information is computed once')
    f = log[0]['fit']
    nt = h.mod(NT)
    h.eq(f['x'], centred(h, given[0], lap, True), 'centred voltages')
    h.eq(f['z'], centred(h, given[1], lap, False), 'centred currents')
    h.eq(dense(h, f['x_cov']), dense(h, nt.average_true_noise_covariance(given[0], np.real(sv), np.imag(sv), False)), 'covariance of the voltages')
    h.eq(dense(h, f['z_cov']), dense(h, nt.average_true_noise_covariance(given[1], np.real(si) * given[3], np.imag(si), False)), 'covariance of the currents')
    h.eq(f['y_mat'], given[2], 'the parameters')
    h.eq(r[0], log[0]['est'][0], 'information matrix')
    h.eq(r[1], log[0]['est'][1], 'covariance matrix')
    y = [p(given[2][a, b]) for p in (lambda z: z.real, lambda z: z.imag) for b in range(n) for a in range(n)]
    h.check(len(draws) == 1 and int(draws[0][2]) == N, 'samples of the distribution')
    h.eq(draws[0][0], np.array(y), 'the distribution is centered on the parameters')
    h.eq(draws[0][1], log[0]['est'][1], 'the distribution has the covariance')
    S = h.real('s1', (N, len(y)))
    d = [np.sqrt(sum((S[k, l] - y[l]) ** 2 for l in range(len(y)))) for k in range(N)]
    mean = sum(d) / N
    sd = np.sqrt(sum((e - mean) ** 2 for e in d) / N)
    h.eq(r[2], sd / np.sqrt(sum(a * a for a in y)), 'deviation of the relative error norm')
    for a, b, s in zip((V, I, Y, R), given, ('voltages', 'currents', 'parameters', 'ratings')):
        h.eq(a, b, 'the %s given are kept' % s)
    same(h, m.eiv_fim('net', None, I, sv, si, R, Y, N, lap, verbose=False), r, 'results read back')
    h.check(len(log) == 1, 'saved results are not computed again')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for lap in (False, True):
        for T, n in [(2, 2), (3, 2)] + ([(2, 3), (3, 3)] if th else []):
            for iters in (0, 4):
                for three in (False, True):
                    r.append(('standard-%s-%dx%d-%d-%s' % (lap, T, n, iters, three), standard, dict(T=T, n=n, lap=lap, iters=iters, three=three, ids=None)))
        for k, ids in enumerate([[0, 1, 2, 0, 1, 2], [0, 0, 1, 1, 2, 2], [2, 0, 1, 1, 0, 2]]):
            for iters in (0, 4):
                r.append(('sequences-%s-%d-%d' % (lap, k, iters), standard, dict(T=2, n=6, lap=lap, iters=iters, three=True, ids=ids)))
        for weighted in (False, True):
            for pmu in (True, False):
                for T, n in [(2, 2)] + ([(3, 2), (2, 3)] if th else []):
                    r.append(('bayes-%s-%s-%s-%dx%d' % (lap, weighted, pmu, T, n), bayes, dict(T=T, n=n, lap=lap, weighted=weighted, pmu=pmu, ids=None, its=[2])))
                for k, ids in enumerate([[0, 1, 2, 0, 1, 2], [2, 0, 1, 1, 0, 2]]):
                    if not th and k != (weighted + pmu) % 2:
                        continue
                    r.append(('bayes3-%s-%s-%s-%d' % (lap, weighted, pmu, k), bayes, dict(T=2, n=6, lap=lap, weighted=weighted, pmu=pmu, ids=ids,
                                                                                               its=[[2, 3, 1], [3, 1, 2], [1, 3, 2], [3, 2, 2], [2, 2, 1]][len(r) % 5])))
        for T, n in [(2, 1), (2, 2)] + ([(3, 2)] if th else []):
            r.append(('uncertainty-%s-%dx%d' % (lap, T, n), uncertainty, dict(T=T, n=n, lap=lap, N=2)))
    r.append(('noseq', noseq, {}))
    return r
