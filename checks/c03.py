"""C03: Laplacian transformation and elimination matrices."""
from checks.c02 import vech, MO
BOUNDS = 'n = 1..12 (quick) / 1..24 (thorough); every complex symmetric zero-row-sum matrix of that size'
OUTSIDE = 'larger n'


def lap(h, n):
    mo, np = h.mod(MO), h.np
    T, E = mo.transformation_matrix(n), mo.elimination_lap_matrix(n)
    D, Es = mo.duplication_matrix(n), mo.elimination_sym_matrix(n)
    m = n * (n - 1) // 2
    w = h.cplx('w', (m,))          # branch admittances, column by column of the strict lower triangle
    M = [[0j] * n for _ in range(n)]
    k = 0
    for j in range(n):
        for i in range(j + 1, n):
            M[i][j] = M[j][i] = -w[k]
            k += 1
    for i in range(n):
        M[i][i] = -sum([M[i][j] for j in range(n) if j != i], 0j)
    M = np.array(M)
    h.eq(T @ w, vech(h, M, n), 'T maps branch admittances to vech of the Laplacian')
    h.eq(E @ vech(h, M, n), w, 'E maps vech of a Laplacian to the branch admittances')
    h.eq(E @ (T @ w), w, 'E T w = w')
    Y = mo.unvectorize_matrix(D @ (T @ w), (n, n))
    h.eq(Y, M, 'D T w is the Laplacian itself')
    h.eq(np.sum(Y, axis=1), np.zeros(n), 'rows of a rebuilt Laplacian sum to zero')
    h.eq(E @ (Es @ mo.vectorize_matrix(M)), w, 'the whole elimination recovers the branch admittances')
    A = h.cplx('A', (n, n))
    h.eq(E @ (Es @ mo.vectorize_matrix(A)), np.array([-(A[i, j] + A[j, i]) / 2 for j in range(n) for i in range(j + 1, n)]),
         'elimination reads minus the averaged off-diagonal entries of any matrix')


def cases(tier):
    return [('lap-%d' % n, lap, dict(n=n)) for n in range(2, 25 if tier == 'thorough' else 13)]
