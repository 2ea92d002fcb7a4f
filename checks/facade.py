"""Self test of the numpy and scipy models: each expression gives the real library's value on a witness (./run_check.py facade)"""
ID = 'facade'
E = """np.einsum('ij,jk->ik', A, B)
np.einsum('ij->ji', A)
np.einsum('ii->i', A)
np.einsum('i,j->ij', v, v)
np.einsum('ij,ij->', A, B.conj())
np.einsum('ij,ij->i', A, B)
np.einsum('i,ij,j', v, A, v)
np.add.reduce(A, axis=0)
np.add.outer(v, v)
np.multiply.outer(v, v)
np.add.accumulate(v)
np.maximum.reduce(v)
np.sum([A, B], axis=0)
sum(A)
sum([x for x in v])
functools.reduce(np.dot, [A, B, A])
functools.reduce(operator.mul, list(v))
np.linalg.multi_dot([A, B, A])
np.linalg.matrix_power(A, 3)
A[np.ix_([0, 2], [1, 2])]
A[[0, 2]][:, [1, 2]]
A.take([0, 2], axis=1)
np.take(A, [1, 0], axis=0)
A[np.triu_indices(3, 1)]
A[np.tril_indices(3)]
A[np.triu_indices_from(A, k=1)]
A[np.diag_indices(3)]
A[np.diag_indices_from(A)]
A[~np.eye(3, dtype=bool)]
np.roll(v, 1)
np.tile(v, (2, 2))
np.repeat(A, 2, axis=0)
np.r_[v, v]
np.c_[v, v]
np.concatenate((v, [1.0]))
np.hstack([v, 2 * v])
np.vstack([v, v])
np.stack([v, v], axis=-1)
np.column_stack([v, v])
np.block([[A.real, -A.imag], [A.imag, A.real]])
np.bmat([[A, B], [B, A]])
np.array([[x.real, x.imag] for x in A.ravel()])
np.array([A[i, j] for i in range(3) for j in range(3)])
np.fromiter((x for x in v), dtype=float)
np.fromiter((x for x in v), float, count=3)
np.array(list(map(lambda x: 2 * x, v)))
np.asarray([np.real(A), np.imag(A)])
np.vectorize(lambda x: x * 2)(v)
np.apply_along_axis(lambda c: c / np.sum(c), 0, P)
np.divide(v, P[0], out=np.zeros_like(v), where=P[0] > 0)
np.square(v)
np.power(P, 2)
P ** 0.5
np.sqrt(P)
np.hypot(v, v)
np.abs(A)
np.absolute(A)
abs(A)
np.abs(A) ** 2
np.conj(A) * A
A.conj().T @ B
A.conjugate().transpose()
np.swapaxes(A, 0, 1)
np.moveaxis(A, 0, 1)
A.T.reshape(-1)
A.flatten('F')
A.ravel(order='F')
A.reshape((-1, 1), order='F')
np.reshape(A, (9, 1), 'F')
np.ravel(A)
A.reshape(1, 9).squeeze()
v[:, None] * v[None, :]
v[:, np.newaxis] * A
np.expand_dims(v, 1) @ np.expand_dims(v, 0)
np.outer(v, v)
np.inner(v, v)
np.vdot(A, B)
np.tensordot(A, B, axes=1)
np.kron(np.eye(2), A)
np.kron(A, np.ones((1, 2)))
np.trace(A)
A.trace()
np.diagonal(A)
A.diagonal()
np.diag(v)
np.diagflat(v)
np.diag(np.diag(A))
np.linalg.norm(v)
np.linalg.norm(A, 'fro')
np.linalg.norm(A)
np.linalg.norm(A, axis=0)
np.linalg.norm(A, axis=1, keepdims=True)
np.linalg.norm(v, 1)
np.linalg.norm(v, np.inf)
np.mean(A, axis=0, keepdims=True)
A.mean(axis=1)
A - A.mean(axis=0)
np.average(A, axis=0)
np.average(v, weights=P[0])
np.std(v)
np.var(v)
np.cov(P)
np.sum(A, axis=(0, 1))
A.sum(axis=-1)
np.cumsum(v)
np.prod(v)
np.diff(v)
np.max(v)
v.max()
np.argmax(v)
np.maximum(v, 0)
np.minimum(v, 1.)
np.clip(v, 0, 1)
v.clip(min=0)
np.where(v > 0, v, -v)
np.sign(v)
np.heaviside(v, 0.5)
np.nonzero(np.array([0., 1., 2.]))[0]
np.argsort(v)
np.sort(v)
sorted(v)
max(v)
min(v, key=lambda x: -x)
np.flip(v)
v[::-1]
np.fliplr(A)
np.triu(A)
np.tril(A, -1)
np.delete(A, 1, axis=0)
np.delete(A, [0, 1], 1)
np.delete(v, slice(0, 2))
np.insert(v, 1, 0)
np.append(v, 0)
np.split(v, 3)[1]
np.array_split(v, 2)[0]
np.pad(v, 1)
np.pad(A, ((0, 1), (1, 0)))
np.pad(A, ((0, 1), (1, 0)), mode='constant')
np.lib.stride_tricks.as_strided(v, (2, 2), (8, 8)) if False else v
np.nan_to_num(v)
np.real_if_close(v)
np.broadcast_to(v, (2, 3))
np.full((2, 2), v[0])
np.full_like(v, 2.)
np.zeros_like(A)
np.zeros(A.shape, dtype=A.dtype)
np.empty((0, 3)).shape[0]
np.ones_like(v) * v
np.eye(3)[::-1] @ v
np.identity(3) * v
np.arange(3) * v
np.linspace(0, 1, 3) * v
np.exp(1j * v)
np.cos(v) + 1j * np.sin(v)
np.angle(A)
np.arctan2(v, P[0])
np.log(P)
np.deg2rad(v)
np.radians(v)
np.rad2deg(v)
v * np.pi / 180
np.mod(np.arange(3), 2) * v
v % 2.
v // 1.
np.reciprocal(P)
1 / P
np.negative(v)
-v
+v
np.add(A, B)
np.subtract(A, B)
np.multiply(A, B)
np.divide(A, P)
np.true_divide(A, P)
np.matmul(A, B)
np.dot(A, v)
A.dot(B)
A.__matmul__(B)
A.copy()
A.astype(complex)
v.astype(np.complex128)
A.view()
A.tolist()
np.array(A.tolist())
v.item(0)
A.item((0, 1))
np.linalg.solve(np.eye(3) * 2 + 0 * A, v)
np.linalg.det(A)
np.isclose(v, v)
np.allclose(A, A)
np.array_equal(A, A)
np.any(v > 1e9)
np.all(v < 1e9)
(v > 1e9).any()
np.count_nonzero(v)
np.logical_and(v > 0, v < 1)
np.unique(np.array([1, 2, 1]))
np.in1d([1, 2, 3], [1, 3])
np.isin(np.arange(3), [1])
np.setdiff1d(np.arange(5), [1, 3])
np.intersect1d([1, 2], [2, 3])
np.union1d([1, 2], [2, 3])
np.flatnonzero(np.array([0, 1]))
np.searchsorted(np.array([1., 2., 3.]), 2.5)
np.meshgrid(v, v)[0]
np.meshgrid(v, v, indexing='ij')[1]
np.indices((2, 2))[0]
np.unravel_index(3, (2, 2))
np.ravel_multi_index((1, 1), (2, 2))
[x for _, x in np.ndenumerate(A)]
[A[i] for i in np.ndindex(3, 3)]
np.atleast_2d(v)
np.squeeze(np.atleast_2d(v))
np.asmatrix(A) * np.asmatrix(B)
np.fromfunction(lambda i, j: i + j, (2, 2))
np.add.at(W, [0, 0, 1], v) or W
np.copyto(W, v) or W
np.put(W, [0, 2], v[:2]) or W
np.fill_diagonal(M, 0) or M
np.putmask(W, v > 0, 0) or W
np.place(W, v > 0, [0.]) or W
W.fill(v[0]) or W
W.put([0], v[1]) or W
W.__setitem__(slice(None), v * 2) or W
W.__imul__(2)
operator.imul(W, 2.)
operator.itemgetter(1)(v)
np.dstack([v, v])
np.linalg.pinv(np.eye(2))
np.trapz(v)
np.interp(0.5, [0., 1.], v[:2])
np.convolve(v, [1., 1.])
np.polyval(v, 2.)
np.rot90(A)
np.nansum(v)
np.nanmean(A, axis=0)
np.float64(2.) * v
np.complex128(1j) * v
np.array(v, dtype=np.float64)
np.array(A, copy=True)
np.array([*v, *v])
np.array(v.tolist() + v.tolist())
np.lexsort((np.array([1, 0]), np.array([0, 1])))
np.concatenate([[v], [v]])
np.concatenate([A, B], axis=None)
np.select([v > 0, v <= 0], [v, -v])
np.choose([0, 1, 0], [v, -v])
np.ptp(v)
np.median(v)
np.quantile(v, 0.5)
np.compress([True, False, True], v)
np.extract(np.array([True, False, True]), v)
np.apply_over_axes(np.sum, A, [0])
np.iscomplexobj(A)
np.isrealobj(v)
np.iscomplex(A).any()
v.nonzero()[0]
v.cumsum()
v.prod()
v.dot(v)
v.repeat(2)
A.swapaxes(0, 1)
A.real ** 2 + A.imag ** 2
A.flat[2]
[x for x in A.flat]
[r @ v for r in A]
list(zip(v, v))
np.array([i * x for i, x in enumerate(v)])
np.split(A, [1], axis=0)[1]
np.ma.masked if False else v
np.product(v)
np.alltrue(v < 1e9)
np.float_power(P, 2)
np.fabs(v)
np.ediff1d(v)
np.emath.sqrt(P)
np.cross(v, v)
np.vander(v)
np.resize(v, (2, 3))
np.block([v, v])
np.nanmax(v)
np.isfinite(v).all()
np.isnan(v).any()
np.isinf(v).any()
np.finfo(float).eps * v
np.linalg.norm(v - 2 * v) / np.linalg.norm(v)
complex(v[0], v[1])
float(v[0]) + float(v[1])
abs(A[0, 0])
A[0, 0].real + A[0, 0].conjugate()
pow(v[0], 2)
round(v[0] * 0 + 2.3)
divmod(7, 2)[0] * v[0]
sum(v, 0.0)
any(x > 1e9 for x in v)
all(x < 1e9 for x in v)
sp.csr_matrix(A).toarray()
sp.csr_matrix(A).todense()
sp.csc_matrix(A).T.toarray()
sp.coo_matrix((v, ([0, 1, 2], [2, 1, 0])), shape=(3, 3)).toarray()
sp.csr_matrix((v, ([0, 1, 2], [2, 1, 0])), shape=(3, 3)) @ v
sp.kron(sp.eye(2), A).toarray()
sp.kron(np.eye(2), A, format='csr').toarray()
sp.diags(v).toarray()
sp.diags([v], [0]).toarray()
sp.diags(v, 0, format='csr') @ v
sp.spdiags(v, 0, 3, 3).toarray()
sp.dia_matrix((v, 0), shape=(3, 3)).toarray()
sp.block_diag([A, B]).toarray()
sp.bmat([[sp.csr_matrix(A), None], [None, sp.csr_matrix(B)]]).toarray()
sp.hstack([sp.csr_matrix(A), sp.csr_matrix(B)]).toarray()
sp.vstack([sp.csr_matrix(A), sp.csr_matrix(B)], format='csr').toarray()
sp.identity(3).dot(v)
sp.csr_matrix(A).dot(v)
sp.csr_matrix(A).multiply(B).toarray()
sp.csr_matrix(A).power(2).toarray()
(sp.csr_matrix(A) @ sp.csr_matrix(B)).toarray()
(sp.csr_matrix(A) * v)
(sp.csr_matrix(A) + sp.csr_matrix(B)).toarray()
(2 * sp.csr_matrix(A)).toarray()
sp.csr_matrix(A).sum(axis=0)
sp.csr_matrix(A).diagonal()
sp.csr_matrix(A).tolil().toarray()
sp.csr_matrix(A).conj().toarray()
sp.csr_matrix(A).real.toarray()
sp.csr_matrix(A)[0, 1]
sp.csr_matrix(A)[[0, 1]].toarray()
sp.csr_matrix(A)[:, [0, 2]].toarray()
sp.csr_matrix(A).transpose().conj().toarray()
sp.csr_matrix(A).reshape((9, 1)).toarray()
sp.csr_matrix(A).tocsc().toarray()
sp.csr_matrix(A).getrow(0).toarray()
sp.csr_matrix(A).nnz
sp.issparse(sp.csr_matrix(A))
sp.isspmatrix(sp.csr_matrix(A))
sp.linalg.spsolve(sp.csc_matrix(np.eye(3) * 2. + 0 * A.real), v)
sp.triu(sp.csr_matrix(A)).toarray()
sp.tril(A).toarray()""".split('\n')


def run(h, e):
    np, sp = h.np, h.sp
    import functools, operator
    mm = h.mod('src.models.matrix_operations')
    A = h.cplx('A', (3, 3)); B = h.cplx('B', (3, 3)); v = h.real('v', (3,)); P = h.real('P', (3, 3))
    for x in P.ravel():
        h.assume(x > 0.1)
    W = v.copy(); M = A.copy()
    g = dict(np=np, sp=sp, A=A, B=B, v=v, P=P, W=W, M=M, functools=functools, operator=operator, 
             float=getattr(mm, 'float', float), complex=getattr(mm, 'complex', complex))
    r = eval(e, g)
    if isinstance(r, (list, tuple)):
        r = np.array(r)
    h.eq(r, r, 'value')

def cases(tier):
    return [(e, run, dict(e=e)) for e in E]
