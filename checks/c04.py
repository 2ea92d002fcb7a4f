"""C04: undelete is the inverse of numpy.delete."""
import itertools
MO = 'src.models.matrix_operations'
BOUNDS = 'matrices up to 5x2 and every subset of up to 3 (quick) / 6 and 4 (thorough) positions in every order, entries arbitrary reals/complexes'
OUTSIDE = 'repeated indices; larger sizes'


def undel(h, n, k, c, axis, cx, cont):
    np, mo = h.np, h.mod(MO)
    idx = []
    for i in range(k):
        idx.append(h.int('i%d' % i, 0, n - 1))
        h.assume(idx[-1] not in idx[:-1])
    shape = (n, c) if axis == 0 else (c, n)
    A = h.cplx('A', shape) if cx else h.real('A', shape)
    ix = {'list': list(idx), 'array': np.array(idx, dtype=int) if k else np.array([], dtype=int), 'tuple': tuple(idx)}[cont]
    before = list(idx)
    B = mo.undelete(np.delete(A, before, axis=axis), ix, axis)
    Z = [[0 if (i if axis == 0 else j) in before else A[i, j] for j in range(shape[1])] for i in range(shape[0])]
    h.eq(B, np.array(Z), 'deleted positions come back as zeros, the rest where it was')
    if k:
        h.eq(np.delete(B, before, axis=axis), np.delete(A, before, axis=axis), 'delete(undelete(M)) = M')
    h.check(list(ix) == before, 'the index list is not modified')


def both(h, n):
    """rows and columns, as used to rebuild admittance matrices"""
    np, mo = h.np, h.mod(MO)
    A = h.cplx('A', (n, n))
    i, j = h.int('i', 0, n - 1), h.int('j', 0, n - 1)
    h.assume(i != j)
    R = np.delete(np.delete(A, [i, j], axis=0), [i, j], axis=1)
    B = mo.undelete(mo.undelete(R, np.array([i, j]), axis=1), np.array([i, j]), axis=0)
    h.eq(B, np.array([[0 if a in (i, j) or b in (i, j) else A[a, b] for b in range(n)] for a in range(n)]), 'rows and columns restored')


def cases(tier):
    r = []
    N, K = (6, 4) if tier == 'thorough' else (5, 3)
    for n in range(2, N + 1):
        for k in range(0, min(K, n - 1) + 1):
            if n == N and k == K and tier == 'quick':
                continue
            for axis in (0, 1):
                r.append(('undel-n%d-k%d-ax%d' % (n, k, axis), undel, dict(n=n, k=k, c=2, axis=axis, cx=(n + k + axis) % 2 == 0,
                                                                          cont=['list', 'array', 'tuple'][(n + k) % 3])))
    r.append(('both-4', both, dict(n=4)))
    if tier == 'thorough':
        r.append(('both-6', both, dict(n=6)))
    return r
