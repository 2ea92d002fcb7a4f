"""C02: duplication and symmetric elimination matrices."""
MO = 'src.models.matrix_operations'
BOUNDS = 'n = 1..12 (quick) / 1..24 (thorough); every complex symmetric matrix of that size'
OUTSIDE = 'larger n'


def vech(h, M, n):
    return h.np.array([M[i, j] for j in range(n) for i in range(j, n)])


def sym(h, name, n, kind='c'):
    low = h.cplx(name, (n, n)) if kind == 'c' else h.real(name, (n, n))
    return h.np.array([[low[max(i, j), min(i, j)] for j in range(n)] for i in range(n)])


def dup(h, n):
    mo, np = h.mod(MO), h.np
    D, E = mo.duplication_matrix(n), mo.elimination_sym_matrix(n)
    M = sym(h, 'M', n)
    h.eq(D @ vech(h, M, n), mo.vectorize_matrix(M), 'D vech(M) = vec(M) for symmetric M')
    h.eq(E @ mo.vectorize_matrix(M), vech(h, M, n), 'E vec(M) = vech(M) for symmetric M')
    v = h.cplx('v', (n * (n + 1) // 2,))
    Y = mo.unvectorize_matrix(D @ v, (n, n))
    h.eq(Y, Y.T, 'a matrix rebuilt from parameters is symmetric')
    h.eq(E @ (D @ v), v, 'E D v = v')
    A = h.cplx('A', (n, n))
    h.eq(E @ mo.vectorize_matrix(A), vech(h, (A + A.T) / 2, n), 'E averages mirrored entries')


def cases(tier):
    return [('dup-%d' % n, dup, dict(n=n)) for n in range(1, 25 if tier == 'thorough' else 13)]
