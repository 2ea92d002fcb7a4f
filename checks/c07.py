"""C07: every prior-adding operation appends exactly the rows that express it and touches nothing else."""
BP, SPR = 'src.models.bayesian_prior', 'src.models.smooth_prior'
BOUNDS = ('one operation from an arbitrary prior state (2 arbitrary rows over n = 3 parameters; an inductive step that covers histories of '
          'any length), 1-2 (quick) / 1-3 (thorough) items per call at every index, weights absent / scalar / per item, orders scalar / per '
          'item; plus every pair (thorough: triple) of operations from an empty prior, copies, and values stored as integers')
OUTSIDE = 'more than 3 parameters; repeated indices inside one contrast; zero reference values of adaptive/contrast rows'

KINDS = ['exact', 'exact_adaptive', 'sparsity', 'adaptive_sparsity', 'contrast', 'ratios']


def new(h, cls, n, other=None, alpha=None):
    if cls == 'base':
        return h.mod(BP).BayesianPrior(n=n, other=other)
    c = getattr(h.mod(SPR), cls)
    return c(n=n, other=other) if alpha is None else c(alpha, n=n, other=other)


def rows(h, L):
    L = L.toarray() if hasattr(L, 'toarray') else L
    return L


def apply(h, p, cls, kind, k, wk, ok, tag, fixed=None, ints=False):
    """call one operation with arbitrary arguments; returns the rows, offsets, orders it must append"""
    np = h.np
    n = p.n
    vals = h.real(tag + 'v', (k,), nonzero=kind in ('exact_adaptive', 'adaptive_sparsity', 'contrast'))
    if ints:                                 # whole numbers, stored as integers
        vals = np.array([4, -2, 3][:k])
    kw = {}
    W = [1] * k
    if kind != 'adaptive_sparsity':
        if wk == 'scalar':
            w = h.pyfloat(tag + 'w')
            kw['weights'], W = w, [w] * k
        elif wk == 'array':
            w = h.real(tag + 'w', (k,))
            kw['weights'], W = w, [w[i] for i in range(k)]
    if cls == 'base':
        ok, O = None, None
    elif ok == 'default':
        O = [2] * k
    elif ok == 'scalar':
        o = h.choice(tag + 'o', [0, 1, 2])
        kw['orders'], O = o, [o] * k
    else:
        o = h.real(tag + 'o', (k,))
        kw['orders'], O = o, [o[i] for i in range(k)]
    if kind in ('contrast', 'ratios'):
        idx = []
        for i in range(k):
            if fixed:
                idx.append(list(fixed[i % len(fixed)]))
                continue
            a, b = h.int('%sa%d' % (tag, i), 0, n - 1), h.int('%sb%d' % (tag, i), 0, n - 1)
            h.assume(a != b)
            idx.append([a, b])
        ix = np.array(idx)
    else:
        idx = [fixed[i % len(fixed)][0] if fixed else h.int('%sa%d' % (tag, i), 0, n - 1) for i in range(k)]
        ix = np.array(idx)
    f = getattr(p, 'add_' + {'exact': 'exact_prior', 'exact_adaptive': 'exact_adaptive_prior', 'sparsity': 'sparsity_prior',
                             'adaptive_sparsity': 'adaptive_sparsity_prior', 'contrast': 'contrast_prior', 'ratios': 'ratios_prior'}[kind])
    if kind == 'sparsity':
        f(ix, **kw)
    else:
        f(ix, vals, **kw)
    L, mu = [], []
    for i in range(k):
        row = [0.0] * n
        v, w = vals[i], W[i]
        if kind == 'exact':
            row[idx[i]], m = w, w * v
        elif kind == 'exact_adaptive':
            row[idx[i]], m = w / v, w
        elif kind == 'sparsity':
            row[idx[i]], m = w, 0.0
        elif kind == 'adaptive_sparsity':
            row[idx[i]], m = 1 / v, 0.0
        elif kind == 'contrast':
            row[idx[i][0]] = row[idx[i][1]] = w / v
            m = w
        else:
            row[idx[i][0]], row[idx[i][1]], m = w, -v * w, 0.0
        L.append(row)
        mu.append(m)
    return L, mu, O


def lists(a):
    return [list(r) for r in a]


def step(h, cls, kind, k, wk, ok, fixed=None, ints=False):
    np = h.np
    n, r = 3, 2
    p = new(h, cls, n)
    L0, mu0, g0 = h.real('L', (r, n)), h.real('mu', (r,)), h.real('g', (r,))
    p.L = h.sp.csr_matrix(L0) if cls.startswith('Sparse') else L0
    p.mu = mu0
    if cls != 'base':
        p.gamma = g0
    dL, dmu, dO = apply(h, p, cls, kind, k, wk, ok, '', fixed, ints)
    check(h, p, cls, n, lists(L0) + dL, list(mu0) + dmu, None if cls == 'base' else list(g0) + dO)


def check(h, p, cls, n, L, mu, O):
    np = h.np
    m = len(mu)
    h.eq(rows(h, p.L), np.array(L).reshape((m, n)) if m else np.zeros((0, n)), 'rows of the prior')
    h.eq(p.mu, np.array(mu) if m else np.zeros(0), 'offsets of the prior')
    if O is not None:
        h.eq(p.gamma, np.array(O) if m else np.zeros(0), 'orders of the prior')
    if cls.startswith('Sparse'):
        h.check(hasattr(p.L, 'toarray'), 'the sparse prior stays sparse')
    h.check(p.n == n, 'the number of parameters is unchanged')


def history(h, cls, n, kinds, fixed=None):
    p = new(h, cls, n)
    L, mu, O = [], [], []
    for i, kind in enumerate(kinds):
        a, b, c = apply(h, p, cls, kind, 1, ['none', 'scalar', 'array'][i % 3], ['scalar', 'default'][i % 2], 's%d' % i, fixed[i:] if fixed else None)
        L, mu, O = L + a, mu + b, O + (c or [])
    check(h, p, cls, n, L, mu, None if cls == 'base' else O)


def copy(h, cls, src, kind):
    """a prior copied from another starts from its rows; later additions do not leak back"""
    np = h.np
    n = 2
    o = new(h, src, n)
    L, mu, O = apply(h, o, src, 'exact', 1, 'scalar', 'scalar', 'o')
    p = new(h, cls, n, other=o)
    dL, dmu, dO = apply(h, p, cls, kind, 1, 'none', 'scalar', 'p')
    O0 = O if src != 'base' else [2]
    check(h, p, cls, n, L + dL, mu + dmu, None if cls == 'base' else O0 + dO)
    check(h, o, src, n, L, mu, None if src == 'base' else O)


def cases(tier):
    th = tier == 'thorough'
    r = []
    for cls in ('base', 'SmoothPrior', 'SparseSmoothPrior'):
        for kind in KINDS:
            for wk in ('none', 'scalar', 'array'):
                if kind == 'adaptive_sparsity' and wk != 'none':
                    continue
                for ok in ('default',) if cls == 'base' else ('default', 'scalar', 'array'):
                    for k in ((1, 2, 3) if th else (2,) if wk == 'array' and ok in ('default', 'array') and kind not in ('contrast', 'ratios') else (1,)):
                        if k == 3 and kind in ('contrast', 'ratios'):
                            continue
                        r.append(('step-%s-%s-%s-%s-%d' % (cls, kind, wk, ok, k), step, dict(cls=cls, kind=kind, k=k, wk=wk, ok=ok)))
                    if not th and k != 2:
                        # several items at once, sharing parameters, at fixed indices
                        r.append(('step-%s-%s-%s-%s-2f' % (cls, kind, wk, ok), step,
                                  dict(cls=cls, kind=kind, k=2, wk=wk, ok=ok, fixed=[[2, 0], [1, 2]])))
        for kind in KINDS:
            for wk in ('none', 'scalar', 'array')[:0 if kind == 'sparsity' else 1 if kind == 'adaptive_sparsity' else 3]:
                r.append(('int-%s-%s-%s' % (cls, kind, wk), step,
                          dict(cls=cls, kind=kind, k=2, wk=wk, ok='scalar', fixed=[[2, 0], [1, 2]], ints=True)))
        for a in KINDS:
            for b in KINDS:
                if cls == 'SparseSmoothPrior' or th:
                    r.append(('hist-%s-%s-%s' % (cls, a, b), history, dict(cls=cls, n=2, kinds=[a, b], fixed=None if th else [[1, 0], [0, 1]])))
                if th and cls == 'SparseSmoothPrior':
                    for c in KINDS:
                        r.append(('hist-%s-%s-%s-%s' % (cls, a, b, c), history, dict(cls=cls, n=2, kinds=[a, b, c])))
    for cls, src in [('base', 'base'), ('SmoothPrior', 'base'), ('SmoothPrior', 'SmoothPrior'), ('SparseSmoothPrior', 'SmoothPrior'),
                     ('SparseSmoothPrior', 'base'), ('SparseSmoothPrior', 'SparseSmoothPrior')]:
        for kind in KINDS if th else ('exact', 'ratios'):
            r.append(('copy-%s-%s-%s' % (cls, src, kind), copy, dict(cls=cls, src=src, kind=kind)))
    return r
