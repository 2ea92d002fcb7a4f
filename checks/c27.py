"""C27: the priors of the identification express the documented beliefs about the admittance matrix."""
I1, I3, MO = 'src.identification.run', 'src.identification.run3ph', 'src.models.matrix_operations'
BOUNDS = ('2-3 nodes (thorough 4), every complex estimate, prior weight and parameter vector for which the reference values are not zero, '
          'Laplacian or not, every choice of options; known lines: the smallest network that contains them')
OUTSIDE = 'larger networks; zero reference values (no finite weight); networks other than that of the known lines'
ASSUMPTIONS = ()


def params(n, lap):
    """matrix entries of the parameters: columns of the lower triangle, with or without diagonal"""
    return [(a, b) for b in range(n) for a in range(b + (1 if lap else 0), n)]


def sym(Y, a, b, lap):
    """value of a parameter in the symmetric part of the matrix"""
    v = (Y[a, b] + Y[b, a]) / 2
    return -v if lap else v


def compare(h, prior, rows, label):
    """same quadratic surrogate as |row x - mu| summed"""
    np = h.np
    P = prior.n
    x = h.real('x', (P,))
    A, b, _ = prior.log_distribution(x)
    A = A.toarray() if hasattr(A, 'toarray') else np.asarray(A)
    al = prior.alpha
    h.check(np.shape(A) == (P, P) and np.shape(b) == (P,), label + ': one entry per parameter')
    w = [1 / (abs(sum(c * x[k] for k, c in r.items()) - m) + al) for r, m in rows]
    E = [[0 for _ in range(P)] for _ in range(P)]
    e = [0 for _ in range(P)]
    for (r, m), q in zip(rows, w):
        for i in r:
            e[i] = e[i] + r[i] * m * q
            for j in r:
                E[i][j] = E[i][j] + r[i] * r[j] * q
    h.eq(A, np.array(E) * 1.0, label)
    h.eq(b, np.array(e) * 1.0, label + ': centers')


def part(z, c):
    return z.imag if c else z.real


def matrix(h, n, lap, diag):
    np = h.np
    Y = h.cplx('y', (n, n))
    for a, b in params(n, lap):
        if a != b or diag:
            for c in (0, 1):
                v = part(sym(Y, a, b, lap), c)
                h.assume(v != 0 if h.symbolic else abs(v) > 1e-3)
    return Y


def builders(h, n, lap):
    mo = h.mod(MO)
    if lap:
        return mo.elimination_lap_matrix(n) @ mo.elimination_sym_matrix(n), mo.duplication_matrix(n) @ mo.transformation_matrix(n)
    return mo.elimination_sym_matrix(n), mo.duplication_matrix(n)


def lasso(h, n, lap, three):
    Y = matrix(h, n, lap, True)
    Y0 = Y.copy()
    if three:
        E, DT = builders(h, n, lap)
        p = h.mod(I3).build_lasso_prior(n, Y, E, DT)
    else:
        p = h.mod(I1).build_lasso_prior(n, Y, lap)
    q = params(n, lap)
    h.check(p.n == 2 * len(q), 'real and imaginary parts of all parameters')
    rows = [({c * len(q) + k: 1 / abs(part(sym(Y0, a, b, lap), c))}, 0) for c in (0, 1) for k, (a, b) in enumerate(q)]
    compare(h, p, rows, 'every parameter is weighted by the inverse of its estimate')
    h.eq(Y, Y0, 'the estimate is kept')


def full(h, n, lap, diag, each, reg):
    np = h.np
    Y = matrix(h, n, lap, reg)
    lam = h.pyfloat('lam', lo=0)
    Y0 = Y.copy()
    q = params(n, lap)
    off = [k for k, (a, b) in enumerate(q) if a != b]
    rows = [({c * len(q) + k: 1 / abs(part(sym(Y0, *q[k], lap), c))}, 0) for c in (0, 1) for k in off]
    sums = []
    for c in (0, 1):
        for i in range(n):
            if diag:
                v = part(Y0[i, i], c) * (1 if lap else -1)
            else:
                v = sum(part(sym(Y0, i, j, lap), c) for j in range(n) if j != i)
            sums.append((c, i, v))
    if each:
        for c, i, v in sums:
            h.assume(v != 0 if h.symbolic else abs(v) > 1e-3)
            rows.append(({c * len(q) + k: lam / v for k in off if i in q[k]}, lam))
        if reg and not lap:
            for c in (0, 1):
                for k, (a, b) in enumerate(q):
                    if a == b:
                        rows.append(({c * len(q) + k: lam / part(Y0[a, a], c)}, lam))
    else:
        for c in (0, 1):
            v = sum(s for d, i, s in sums if d == c) / 2
            h.assume(v != 0 if h.symbolic else abs(v) > 1e-3)
            rows.append(({c * len(q) + k: lam / v for k in off}, lam))
    p = h.mod(I1).build_complex_prior(n, lam, Y, lap, diag, each, reg)
    h.check(p.n == 2 * len(q), 'real and imaginary parts of all parameters')
    compare(h, p, rows, 'inverse weights of branches, sums of branches close to their estimates')
    h.eq(Y, Y0, 'the estimate is kept')


def loads(h, n):
    """exact beliefs on the branches of a known network"""
    Y = matrix(h, n, False, False)
    Y0 = Y.copy()
    p = h.mod(I1).build_loads_id_prior(n, Y)
    q = params(n, False)
    h.check(p.n == 2 * len(q), 'real and imaginary parts of all parameters')
    compare(h, p, [({c * len(q) + k: 1}, part(sym(Y0, a, b, False), c)) for c in (0, 1) for k, (a, b) in enumerate(q) if a != b], 'every branch is centered on its belief')
    h.eq(Y, Y0, 'the belief is kept')


KNOWN = {'optimal': ([0, 25, 26], [(1, 0), (25, 24), (26, 25), (27, 26), (28, 26)]),
         'suboptimal': ([7, 20, 21], [(7, 6), (8, 7), (20, 19), (21, 20), (22, 21)])}


def known(h, n, lap, kind):
    """knowledge of lines: all branches of the documented nodes, with their actual values"""
    np = h.np
    nodes, lines = KNOWN[kind.split()[0]]
    Y = h.np.zeros((n, n)) * 1j
    y = h.cplx('y', (len(lines),))
    for k, (a, b) in enumerate(lines):
        Y[a, b] = Y[b, a] = y[k]
        for c in (0, 1):
            h.assume(part(y[k], c) != 0 if h.symbolic else abs(part(y[k], c)) > 1e-3)
    lam = h.pyfloat('lam', lo=0)
    calls = []

    class Prior(object):
        def add_exact_adaptive_prior(self, indices, values, weights=None, orders=2):
            for i, v, w in zip(indices, values, np.ones(len(list(indices))) * weights):
                calls.append((i, v, w))
    p = Prior()
    p.n = 2 * len(params(n, lap))
    h.check(h.mod(I1).add_known_lines(n, p, lam, Y, lap, kind) is p, 'beliefs are added to the prior given')
    ids, val, w = ([c[k] for c in calls] for k in range(3))
    q = params(n, lap)
    exp = {}
    for k, (a, b) in enumerate(q):
        if a != b and (a in nodes or b in nodes):
            z = y[lines.index((a, b))] if (a, b) in lines else 0
            for c in (0, 1):
                exp[c * len(q) + k] = (part(z, c) if (a, b) in lines else 0) * (-1 if lap else 1)
    wrong = 'wrong' in kind
    h.check(sorted(int(i) for i in ids) == sorted(exp), 'branches of the documented nodes')
    h.eq(np.array(val) * 1.0, np.array([exp[int(i)] for i in ids]) * (1.1 if wrong else 1.0), 'actual values of the branches' if not wrong else 'values that are 10% too large')
    h.eq(np.array(w) * 1.0, np.ones(len(ids)) * lam * (0.01 if wrong else 1), 'weight of the beliefs')
    with h.finding('known-lines-zero'):
        h.check(all(v != 0 for i, v in zip(ids, val)), 'finite weights')


def cases(tier):
    r = []
    N = (2, 3) + ((4,) if tier == 'thorough' else ())
    for n in N:
        for lap in (False, True):
            for three in (False, True):
                r.append(('lasso-%d-%s-%s' % (n, lap, three), lasso, dict(n=n, lap=lap, three=three)))
            for diag in (False, True):
                for each in (True, False):
                    for reg in (False, True):
                        r.append(('prior-%d-%s-%s-%s-%s' % (n, lap, diag, each, reg), full, dict(n=n, lap=lap, diag=diag, each=each, reg=reg)))
        r.append(('loads-%d' % n, loads, dict(n=n)))
    for lap in (False, True):
        for kind in KNOWN:
            for wrong in ('', ' wrong'):
                r.append(('known-%s-%s' % (lap, kind + wrong), known, dict(n=29 if kind == 'optimal' else 23, lap=lap, kind=kind + wrong)))
    return r
