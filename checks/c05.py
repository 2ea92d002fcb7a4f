"""C05: the GPU implementation of the matrix operations agrees with the CPU one."""
GM, MO = 'src.models.gpu_matrix_operations', 'src.models.matrix_operations'
BOUNDS = 'matrices up to 5x4 (quick) / 7x6 (thorough), dense, csr, csc, coo; every complex entry arbitrary'
OUTSIDE = 'real CUDA kernels: no GPU here, cupy is modelled by the numpy facade (and replaced by numpy itself in replays); the complex64 precision'
ASSUMPTIONS = ('cupy implements the numpy functions it shadows, except that flatten() is row-major',)


def real_setup(h):
    import sys
    import types
    import numpy
    import scipy.sparse
    import scipy.sparse.linalg
    sys.modules['cupy'] = numpy
    m = types.ModuleType('cupyx')
    m.scipy = types.ModuleType('cupyx.scipy')
    m.scipy.sparse = scipy.sparse
    sys.modules['cupyx'], sys.modules['cupyx.scipy'] = m, m.scipy
    sys.modules['cupyx.scipy.sparse'] = scipy.sparse
    sys.modules['cupyx.scipy.sparse.linalg'] = scipy.sparse.linalg


def d(x):
    return x.toarray() if hasattr(x, 'toarray') else x


def agree(h, m, n, cx, fmt):
    g, c, np = h.mod(GM), h.mod(MO), h.np
    A = h.cplx('A', (m, n)) if cx else h.real('A', (m, n))
    if fmt == 'dense':
        v = c.vectorize_matrix(A)
        h.eq(g.vectorize_matrix(A), v, 'vectorize_matrix')
        h.eq(g.unvectorize_matrix(v, (m, n)), A, 'unvectorize_matrix')
        h.eq(g.vectorize_matrix(A.T), c.vectorize_matrix(A.T), 'vectorize_matrix of a transposed view')
        h.eq(g.make_real_vector(v), c.make_real_vector(v), 'make_real_vector')
        r = h.real('r', (2 * m,))
        h.eq(g.make_complex_vector(r), c.make_complex_vector(r), 'make_complex_vector')
        M = A
    else:
        M = getattr(h.sp, fmt + '_matrix')(A)
    before = d(M).copy()
    h.eq(d(g.make_real_matrix(M)), d(c.make_real_matrix(M)), 'make_real_matrix')
    h.eq(d(M), before, 'the input is left alone')
    R = h.real('R', (2 * m, 2 * n))
    if fmt != 'coo':
        R = R if fmt == 'dense' else getattr(h.sp, fmt + '_matrix')(R)
        h.eq(d(g.make_complex_matrix(R)), d(c.make_complex_matrix(R)), 'make_complex_matrix')


def cases(tier):
    r = []
    for m, n in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3), (4, 4), (5, 4), (3, 5)] + ([(7, 6), (1, 9), (9, 1)] if tier == 'thorough' else []):
        for fmt in ('dense', 'csr', 'csc', 'coo'):
            for cx in (True, False) if fmt == 'dense' else (True,):
                r.append(('agree-%s-%dx%d-%s' % (fmt, m, n, 'c' if cx else 'r'), agree, dict(m=m, n=n, cx=cx, fmt=fmt)))
    return r
