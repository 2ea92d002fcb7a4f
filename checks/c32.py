"""C32: results are compared with the reference in the same coordinates, and plotted with the data they were given."""
from checks.c24 import dirs
from checks.c18 import A
P, U, AM = 'plot_results', 'src.identification.utils', 'src.models.abstract_models'
BOUNDS = ('1-3 saved columns (two nodes or one three-phase bus; thorough: 6 columns) with any listed phases or sequences, any listed zero admittances, 1-3 logged iterations; '
          'every other admittance, estimate and cost; plots of 1-3 rows and columns of any value')
OUTSIDE = ('drawing itself (matplotlib, seaborn), the metrics (C06), eigenvalues, figures on sparsity; parsing of the options (click)')
ASSUMPTIONS = ('numpy restores saved arrays unchanged', 'click passes options on as documented')


def path(h, name):
    return h.mod('conf.conf').DATA_DIR / name


def pattern(h, name, n, zeros):
    """symmetric with the zeros given"""
    np = h.np
    M = h.cplx(name, (n, n), nonzero=True)
    return np.array([[0j if (i, j) in zeros or (j, i) in zeros else M[max(i, j), min(i, j)] for j in range(n)] for i in range(n)])


def show(h, ids, phases, q, lap, std, bay, unc, iters, zeros):
    np = h.np
    dirs(h)
    three = phases in ('012', '123')
    g = [k for k, s in enumerate(ids) if three or s == int(phases)]
    k, n = len(g), len(ids)
    p, am = h.mod(P), h.mod(AM)
    conv = unconv = lambda M: M
    if three and (phases == '012') != q:
        S = np.kron(np.eye(k // 3), A(h))
        H = S.conj().T
        to_phase, to_seq = (lambda M: S @ M @ H / 3), (lambda M: H @ M @ S / 3)
        conv, unconv = (to_phase, to_seq) if phases == '012' else (to_seq, to_phase)
    ref = pattern(h, 'y', k, zeros)
    y = unconv(ref)
    sim = lambda s: path(h, 'simulations_output/%s.npz' % s)
    W = h.real('w', (2, n)) + 0j
    np.savez(sim('net'), v=h.cplx('v', (2, n)), i=h.cplx('i', (2, n)), w=W.copy(), j=h.cplx('j', (2, n)), h=np.array(ids))
    np.savez(sim('reference_results_net'), y=y.copy(), p=phases, l=lap)
    est = [h.cplx('e%d' % j, (k, k)) for j in range(4)]
    if std:
        np.savez(sim('standard_results_net'), **{c: e.copy() for c, e in zip('otl', est)})
    its = [am.IterationStatus(j, h.cplx('it%d' % j, (k, k)), h.pyfloat('t%d' % j)) for j in range(iters)]
    if bay:
        box = np.empty(iters, dtype=object)
        for j, x in enumerate(its):
            box[j] = x
        np.savez(sim('bayesian_results_net'), y=est[3].copy(), i=box)
    if unc:
        N = 2 * k * k
        C = [h.real('c%s' % c, (N, N)) for c in 'eb']
        np.savez(sim('uncertainty_results_net'), e=C[0].copy(), b=C[1].copy())
        spec = [(h.real('s%s' % c, (N,), lo=0), h.real('v%s' % c, (N, N))) for c in 'eb']
        dec = []

        def eigen(M):
            dec.append(M.copy())
            return tuple(x.copy() for x in spec[len(dec) - 1])
        p.np.linalg.eig = eigen
    heat, series, scatter, metrics, rr, eig = {}, {}, {}, [], [], []
    keep = lambda d: lambda m, name, *a, **o: d.setdefault(name, []).append((m.copy(), a, o))
    p.plot_heatmap, p.plot_series, p.plot_scatter = keep(heat), keep(series), keep(scatter)

    def measure(a, b):
        metrics.append((a.copy(), b.copy()))
        return 'metrics %d' % len(metrics)
    p.error_metrics = measure
    R = [h.pyfloat('r%d' % j) for j in range(iters)]

    def rrms(a, b):
        rr.append((a.copy(), b.copy()))
        return R[len(rr) - 1]
    p.rrms_error = rrms
    p.np.linalg.eigvals = lambda M: (eig.append(M.copy()), np.ones(np.shape(M)[0]))[1]
    p.plot_results.main(['-n', 'net'] + (['-q'] if q else []), standalone_mode=False)
    # expected coordinates
    exp = [conv(e) for e in est]

    def one(d, name, m, label):
        h.check(len(d.get(name, ())) == 1, label + ' is plotted once')
        h.eq(d[name][0][0], m, label)
    one(heat, 'y_bus', np.abs(ref), 'reference')
    if not three:
        V = W[:, g]
        c = np.array([[V[t, j] - (V[0, j] + V[1, j]) / 2 for j in range(k)] for t in range(2)])
        h.check(len(eig) == 1, 'correlations')
        h.eq(eig[0], c.T @ c, 'products of the centred voltages of these phases')
    names = {'y_bus'}
    if std:
        for e, s in zip(exp, ('ols', 'tls', 'lasso')):
            one(heat, 'y_' + s, np.abs(e), s)
            written(h, s, metrics, ref, e)
            names.add('y_' + s)
    if bay:
        one(heat, 'y_sparse_tls_cov', np.abs(exp[3]), 'weighted estimate')
        one(heat, 'y_sparse_tls_cov_errors', np.abs(exp[3] - ref), 'errors of the weighted estimate')
        written(h, 'sparse_tls', metrics, ref, exp[3])
        names |= {'y_sparse_tls_cov', 'y_sparse_tls_cov_errors'}
        h.check(len(rr) == iters, 'one error per iteration')
        for (a, b), x in zip(rr, its):
            h.eq(a, ref, 'errors relative to the reference')
            h.eq(b, conv(x.fitted_parameters), 'parameters of the iteration')
        one(series, 'errors', np.array(R).reshape((iters, 1)), 'errors of the iterations in order')
        one(series, 'targets', np.array([x.target_function for x in its[1:]]).reshape((iters - 1, 1)), 'costs of the iterations in order')
        at = [(i, j) for j in range(k) for i in range(j + 1, k) if (i, j) not in zeros and (j, i) not in zeros]
        one(scatter, 'comparison', np.array([[np.abs((e[i, j] + e[j, i]) / 2) for e in exp + [ref]] for i, j in at]).reshape((len(at), 5)), 'comparison of the admittances between nodes')
        lab = scatter['comparison'][0][2].get('labels')
        h.check(len(lab) == 5 and [lab[c] for c in (0, 2, 3, 4)] == ['OLS', 'Lasso', 'MAP', 'actual'], 'names of the methods')
    if unc:
        one(heat, 'tls_errors', np.abs(exp[1] - ref), 'errors of total least squares')
        h.check(len(dec) == 2, 'axes of both covariances')
        for c, M, (w, v), nm in zip(C, dec, spec, ('tls_cov', 'tls_cov_est')):
            h.eq(M, c, 'axes of the covariance: ' + nm)
            x = [sum(v[a, b] * np.sqrt(w[b]) for b in range(N)) / k for a in range(N)]
            one(heat, nm, np.array([[x[j * k + i] + 1j * x[k * k + j * k + i] for j in range(k)] for i in range(k)]), 'sum of the axes: ' + nm)
        names |= {'tls_errors', 'tls_cov', 'tls_cov_est'}
    h.check(set(heat) == names, 'results that were not saved are skipped')
    h.check(set(series) == ({'correlations', 'errors', 'targets'} if bay else {'correlations'}), 'series')


def written(h, name, metrics, ref, e):
    p = h.mod(P)
    with p.__dict__.get('open', open)(path(h, name + '_error_metrics.txt')) as f:
        text = f.read().split()
    h.check(len(text) == 2 and text[0] == 'metrics', 'metrics are written under the name of the method: ' + name)
    a, b = metrics[int(text[1]) - 1]
    h.eq(a, ref, 'metrics relative to the reference: ' + name)
    h.eq(b, e, 'metrics of the estimate: ' + name)


class Rec(object):
    """stands for the plotting libraries"""

    def __init__(self, log, names):
        self.log, self.names = log, names

    def colormaps(self):
        return self.names

    def figure(self, *a, **k):
        return self

    add_subplot = get_figure = figure

    def heatmap(self, m, *a, **k):
        self.log.append(('heatmap', m, k))
        return self

    def plot(self, x, y, *a, **k):
        self.log.append(('plot', x, y, k))

    def savefig(self, f):
        self.log.append(('save', str(f)))

    def get_tikz_code(self, *a, **k):
        return 'code %d' % len([e for e in self.log if e[0] == 'plot'])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class Palette(object):
    """stands for matplotlib: named maps from [0, 1]"""

    def __init__(self):
        self.colors = self.cm = self.colormaps = self

    def Normalize(self, vmin=0., vmax=1., **k):
        return lambda x: (x - vmin) / float(vmax - vmin)

    def get_cmap(self, name, n=None):
        return lambda x: (name, x if isinstance(x, float) or n is None else x / (n - 1.) if n > 1 else 0.)


def draw(h, kind, rows, cols, labels, colors):
    np = h.np
    dirs(h)
    import os
    os.makedirs(os.path.join(h.scratch(), 'tikz'), exist_ok=True)
    u, log = h.mod(U), []
    r = Rec(log, ['hsv'])
    u.plt, u.sns, u.tikzplotlib, u.ply = r, r, r, Palette()
    M = h.cplx('m', (rows, cols)) if kind == 'heatmap' else h.real('m', (rows, cols))
    G = M.copy()
    if kind == 'heatmap':
        u.plot_heatmap(M, 'x', minval=0, maxval=2)
        h.check([e[0] for e in log] == ['heatmap', 'save'], 'drawn and saved')
        h.eq(log[0][1], np.abs(G), 'magnitudes')
        h.check(log[0][2].get('vmin') == 0 and log[0][2].get('vmax') == 2, 'range')
        h.check(log[1][1] == str(path(h, 'x.png')), 'saved under its name')
    else:
        getattr(u, 'plot_' + kind)(M, 'x', labels=labels, colormap=colors)
        h.check([e[0] for e in log] == ['plot'] * cols + ['save'], 'one series per column')
        for c, e in enumerate(log[:-1]):
            h.check([int(x) for x in e[1]] == list(range(rows)), 'rows in order')
            h.eq(e[2], G[:, c], 'values of the column')
            want = labels[c] if labels is not None and len(labels) == cols else None
            h.check(e[3].get('label') == want, 'label of the column')
            want = colors if not isinstance(colors, list) else colors[c] if len(colors) >= cols else colors[0]
            if colors == 'hsv':
                h.check(type(e[3].get('color')) is tuple and e[3]['color'][0] == 'hsv' and 0 <= e[3]['color'][1] <= 1, 'color from the map')
            else:
                h.check(e[3].get('color') == want, 'color of the column')
        if colors == 'hsv':
            h.check(len(set(e[3].get('color') for e in log[:-1])) == cols, 'columns have different colors of the map')
        h.check(log[-1][1] == str(path(h, 'x.pdf')), 'saved under its name')
        with u.__dict__.get('open', open)(path(h, 'tikz/x.tex')) as f:
            h.check(f.read().strip() == 'code %d' % cols, 'source of the whole figure')
    h.eq(M, G, 'the data is not modified')
    h.eq(np.load(path(h, 'simulations_output/plot_data/x.npz'))['m'], G, 'data saved with the plot')


def cases(tier):
    th = tier == 'thorough'
    r = []
    j = 0
    for nm, ids, phases in (('one', [1, 1], '1'), ('phase2', [1, 2, 3, 2, 3], '2'), ('phase3', [3, 1, 3], '3'), ('seq0', [0, 1, 2, 0, 1], '0'), ('seq2', [2, 1, 2, 0], '2'),
                            ('three', [1, 1, 1], '1'), ('012', [0, 1, 2], '012'), ('123', [1, 2, 3], '123')) + \
            ((('012x2', [0, 1, 2] * 2, '012'), ('123x2', [1, 2, 3] * 2, '123')) if th else ()):
        three = phases in ('012', '123')
        for q in (False, True):
            if not three and q != phases.endswith(('0', '2')) and not th:
                continue
            for lap in (False, True):
                for std, bay in ((True, True), (True, False), (False, False)):
                    if not th and not bay and (j % 3 or lap):
                        continue
                    j += 1
                    z = ((0, 1),) if nm == 'three' or three and lap and q == (phases == '012') else ()
                    r.append(('%s-%s-%s-%d%d' % (nm, q, lap, std, bay), show, dict(ids=ids, phases=phases, q=q, lap=lap, std=std, bay=bay, unc=std and not three and len(ids) < 5 and bool(j % 2), iters=1 + j % 3, zeros=z)))
    for rows, cols in ((1, 1), (2, 3), (3, 2)):
        r.append(('heatmap-%dx%d' % (rows, cols), draw, dict(kind='heatmap', rows=rows, cols=cols, labels=None, colors=None)))
        for kind in ('scatter', 'series'):
            for labels in (None, ['a', 'b', 'c'][:cols], ['a'] * (cols + 1)):
                for colors in ('red', ['red', 'blue', 'green', 'black'], ['red'], ['red', 'blue', 'green'][:cols], 'hsv'):
                    if th or (len(colors) + (labels is None) + rows) % 2:
                        r.append(('%s-%dx%d-%s-%s' % (kind, rows, cols, labels and len(labels), len(colors) if isinstance(colors, list) else colors), draw,
                                  dict(kind=kind, rows=rows, cols=cols, labels=labels, colors=colors)))
    return r
