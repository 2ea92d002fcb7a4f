"""C01: vectorisation and real/complex conversions are lossless and respect the matrix algebra."""

MO = 'src.models.matrix_operations'
BOUNDS = 'matrices up to 5x4 (quick) / 7x6 (thorough), vectors up to length 10 / 20, every complex entry arbitrary'
OUTSIDE = 'larger sizes; entries of non-float dtypes; memory layout'


def vec(h, m, n, kind):
    mo = h.mod(MO)
    A = h.cplx('A', (m, n)) if kind == 'c' else h.real('A', (m, n))
    v = mo.vectorize_matrix(A)
    h.eq(v, h.np.array([A[i, j] for j in range(n) for i in range(m)]), 'vec stacks the columns')
    h.eq(mo.unvectorize_matrix(v, (m, n)), A, 'unvec(vec(A)) = A')
    w = h.cplx('w', (m * n,)) if kind == 'c' else h.real('w', (m * n,))
    U = mo.unvectorize_matrix(w, (m, n))
    h.eq(mo.vectorize_matrix(U), w, 'vec(unvec(w)) = w')
    h.eq(mo.vectorize_matrix(A + U), v + w, 'vec is additive')
    # a sliced / transposed view must not confuse the order
    h.eq(mo.vectorize_matrix(A.T), h.np.array([A[i, j] for i in range(m) for j in range(n)]), 'vec of a transposed view')


def vec_axb(h, n):
    """vec(AXB) = (B^T kron A) vec(X): what the Kronecker-form regressions rely on"""
    mo = h.mod(MO)
    A, X, B = h.cplx('A', (n, n)), h.cplx('X', (n, n)), h.cplx('B', (n, n))
    h.eq(mo.vectorize_matrix(A @ X @ B), h.np.kron(B.T, A) @ mo.vectorize_matrix(X), 'vec(AXB) = (B^T x A) vec(X)')


def realvec(h, n):
    mo = h.mod(MO)
    v = h.cplx('v', (n,))
    r = mo.make_real_vector(v)
    h.eq(r, h.np.array([v[i].real for i in range(n)] + [v[i].imag for i in range(n)]), 'real vector = [Re; Im]')
    h.eq(mo.make_complex_vector(r), v, 'complex(real(v)) = v')
    w = h.real('w', (2 * n,))
    h.eq(mo.make_real_vector(mo.make_complex_vector(w)), w, 'real(complex(w)) = w')
    a = h.real('a')
    h.eq(mo.make_real_vector(v * a), r * a, 'real scaling commutes')


def mk(h, fmt, A):
    return A if fmt == 'dense' else getattr(h.sp, fmt + '_matrix')(A)


def realmat(h, m, n, p, fmt):
    np, mo = h.np, h.mod(MO)
    A, B = h.cplx('A', (m, n)), h.cplx('B', (n, p))
    RA = mo.make_real_matrix(mk(h, fmt, A))
    if fmt != 'dense':
        h.check(RA.format == fmt, 'the sparse format is kept')
        RA = RA.toarray()
    exp = np.array([[A[i, j].real for j in range(n)] + [-A[i, j].imag for j in range(n)] for i in range(m)] +
                   [[A[i, j].imag for j in range(n)] + [A[i, j].real for j in range(n)] for i in range(m)])
    h.eq(RA, exp, 'real matrix = [[Re, -Im], [Im, Re]]')
    RB = mo.make_real_matrix(mk(h, fmt, B))
    RB = RB if fmt == 'dense' else RB.toarray()
    RAB = mo.make_real_matrix(mk(h, fmt, A @ B))
    RAB = RAB if fmt == 'dense' else RAB.toarray()
    h.eq(RAB, RA @ RB, 'products are preserved')
    v = h.cplx('v', (n,))
    h.eq(RA @ mo.make_real_vector(v), mo.make_real_vector(A @ v), 'matrix-vector products are preserved')
    if m == n:
        h.eq(mo.make_real_matrix(np.conj(A).T), RA.T, 'conjugate transposes are preserved')


def cmat(h, m, n, fmt):
    np, mo = h.np, h.mod(MO)
    A = h.cplx('A', (m, n))
    RA = mo.make_real_matrix(mk(h, fmt, A))
    C = mo.make_complex_matrix(RA)
    if fmt != 'dense':
        C = C.toarray() if hasattr(C, 'toarray') else C
    h.eq(C, A, 'complex(real(A)) = A')


def realinput(h, m, n, fmt):
    """real (not complex) matrices convert too"""
    np, mo = h.np, h.mod(MO)
    A = h.real('A', (m, n))
    RA = mo.make_real_matrix(mk(h, fmt, A))
    RA = RA if fmt == 'dense' else RA.toarray()
    h.eq(RA, np.kron(np.eye(2), A), 'a real matrix becomes block diagonal')
    B = h.real('B', (m,))
    h.eq(mo.make_real_vector(B), np.concatenate([B, np.zeros(m)]), 'a real vector gets a zero imaginary part')


def cases(tier):
    th = tier == 'thorough'
    r = []
    sizes = [(1, 1), (1, 3), (2, 1), (2, 3), (3, 2), (3, 3), (4, 4), (5, 4), (2, 5)] + ([(1, 9), (7, 6), (6, 7)] if th else [])
    for m, n in sizes:
        for k in 'rc':
            r.append(('vec-%dx%d-%s' % (m, n, k), vec, dict(m=m, n=n, kind=k)))
    for n in [1, 2, 3] + ([4] if th else []):
        r.append(('vec-axb-%d' % n, vec_axb, dict(n=n)))
    for n in [1, 2, 3, 6, 10] + ([20] if th else []):
        r.append(('realvec-%d' % n, realvec, dict(n=n)))
    for fmt in ('dense', 'csr', 'csc', 'coo'):
        for m, n, p in [(1, 1, 1), (2, 2, 2), (2, 3, 1), (3, 2, 2), (3, 3, 3), (4, 2, 3)] + ([(5, 4, 3), (1, 6, 1)] if th else []):
            r.append(('realmat-%s-%dx%dx%d' % (fmt, m, n, p), realmat, dict(m=m, n=n, p=p, fmt=fmt)))
        for m, n in [(1, 2), (2, 2), (3, 1), (2, 3), (4, 4)] + ([(6, 5), (1, 8)] if th else []):
            if fmt in ('dense', 'csr', 'csc'):
                r.append(('cmat-%s-%dx%d' % (fmt, m, n), cmat, dict(m=m, n=n, fmt=fmt)))
            r.append(('realinput-%s-%dx%d' % (fmt, m, n), realinput, dict(m=m, n=n, fmt=fmt)))
    return r
