"""C17: Kron reduction gives the network seen from the kept nodes."""
AN = 'src.simulation.abstract_network'
BOUNDS = ('every complex admittance matrix up to 4 nodes (quick) / 5 (thorough), symmetric or not, whose reduced block is invertible; every subset of '
          'one or two reduced nodes (thorough: up to three), in any order and container; reduced nodes without lines')
OUTSIDE = 'singular reduced blocks other than nodes without lines (the code uses a pseudo-inverse there); larger networks'
ASSUMPTIONS = ('numpy.linalg.pinv of an invertible matrix is its inverse',)


def make(h, y=None):
    AB = h.mod(AN)

    class N(AB.Net):
        def create_bus(self, *a, **k):
            raise NotImplementedError

        def make_y_bus(self):
            return y
    return N()


def mat(h, n, kind):
    np = h.np
    if kind == 'sym':
        Y = np.zeros((n, n)) * 1j
        for a in range(n):
            for b in range(a + 1):
                Y[a, b] = h.cplx('y%d%d' % (a, b))
                Y[b, a] = Y[a, b]
        return Y
    if kind == 'lap':
        Y = np.zeros((n, n)) * 1j
        for a in range(n):
            for b in range(a):
                v = h.cplx('y%d%d' % (a, b))
                Y[a, b] = -v
                Y[b, a] = -v
                Y[a, a] = Y[a, a] + v
                Y[b, b] = Y[b, b] + v
        return Y
    return h.cplx('y', (n, n))


def det(h, A):
    n = len(A)
    if n == 0:
        return 1
    if n == 1:
        return A[0][0]
    return sum((-1) ** j * A[0][j] * det(h, [r[:j] + r[j + 1:] for r in A[1:]]) for j in range(n))


def regular(h, Y, red):
    d = det(h, [[Y[a, b] for b in red] for a in red])
    h.assume(abs(d) ** 2 > (0 if h.symbolic else 1e-4))


def equivalent(h, n, red, kind, form):
    """with no current injected at the reduced nodes, the kept currents are the reduced matrix times the kept voltages"""
    np = h.np
    Y = mat(h, n, kind)
    regular(h, Y, red)
    keep = [k for k in range(n) if k not in red]
    v = h.cplx('v', (n,))
    # voltages of the reduced nodes at which their currents vanish (Cramer's rule)
    B = [[Y[a, b] for b in red] for a in red]
    c = [-sum(Y[a, b] * v[b] for b in keep) for a in red]
    for j, a in enumerate(red):
        v[a] = det(h, [[c[i] if l == j else B[i][l] for l in range(len(red))] for i in range(len(red))]) / det(h, B)
    cur = [sum(Y[a, b] * v[b] for b in range(n)) for a in range(n)]
    arg = {'list': list(red), 'tuple': tuple(red), 'array': np.array(list(red)), 'float': np.array([float(x) for x in red]), 'set': set(red)}[form]
    Y0 = Y.copy()
    R = make(h).kron_reduction(list(arg) if form == 'set' else arg, Y)
    h.check(R.shape == (len(keep), len(keep)), 'one row and column per kept node')
    h.eq(R @ np.array([v[k] for k in keep]), np.array([cur[k] for k in keep]), 'the kept currents follow from the kept voltages, in the order of the nodes')
    h.eq(Y, Y0, 'the matrix is not modified')


def structure(h, n, red, kind):
    np = h.np
    Y = mat(h, n, kind)
    regular(h, Y, red)
    R = make(h, Y).kron_reduction(list(red))
    h.eq(R, make(h).kron_reduction(list(red), Y), 'by default, the matrix of the network is reduced')
    h.eq(R, R.T, 'symmetry is kept')
    if kind == 'lap':
        h.eq(np.array([sum(R[a, b] for b in range(R.shape[1])) for a in range(R.shape[0])]), np.zeros(R.shape[0]), 'zero row sums are kept')


def nothing(h, n):
    Y = mat(h, n, 'any')
    h.eq(make(h, Y).kron_reduction([]), Y, 'reducing nothing changes nothing')


def isolated(h, n, alone, red, kind):
    """reduced nodes without any line disappear"""
    np = h.np
    Y = mat(h, n, kind)
    for a in alone:
        for b in range(n):
            Y[a, b] = 0
            Y[b, a] = 0
    rest = [k for k in range(n) if k not in alone]
    more = [k for k in red if k not in alone]
    regular(h, Y, more)
    R = make(h).kron_reduction(list(red), Y)
    if more:
        h.eq(R, make(h).kron_reduction([rest.index(k) for k in more], Y[rest, :][:, rest]), 'nodes without lines disappear')
    else:
        h.eq(R, Y[rest, :][:, rest], 'nodes without lines disappear')


def twice(h, n, first, then):
    """reducing step by step is reducing at once"""
    Y = mat(h, n, 'any')
    both = sorted(set(first) | set(then))
    regular(h, Y, first)
    regular(h, Y, both)
    net = make(h)
    A = net.kron_reduction(list(first), Y)
    keep = [k for k in range(n) if k not in first]
    B = net.kron_reduction([keep.index(k) for k in then], A)
    h.eq(B, net.kron_reduction(both, Y), 'step by step or at once')


def cases(tier):
    th = tier == 'thorough'
    r = []
    import itertools
    for n in (2, 3, 4) + ((5,) if th else ()):
        for k in (1, 2) + ((3,) if th else ()):
            if k >= n:
                continue
            for red in itertools.permutations(range(n), k):
                if k > 1 and red[0] < red[1] and not th and n == 4 and red != (1, 2):
                    continue
                f = ('list', 'array', 'float', 'tuple')[(sum(red) + k) % 4]
                r.append(('equivalent-%d-%s-%s' % (n, ''.join(map(str, red)), f), equivalent, dict(n=n, red=red, kind='any', form=f)))
        r.append(('nothing-%d' % n, nothing, dict(n=n)))
    for n, red in [(3, (1,)), (3, (2, 0)), (4, (0,)), (4, (2, 3))] + ([(4, (3, 1, 0)), (5, (1, 4))] if th else []):
        r.append(('symmetric-%d-%s' % (n, ''.join(map(str, red))), structure, dict(n=n, red=red, kind='sym')))
        r.append(('laplacian-%d-%s' % (n, ''.join(map(str, red))), structure, dict(n=n, red=red, kind='lap')))
    for n, a, b in [(3, (0,), (1,)), (4, (2,), (0,))] + ([(4, (1,), (3,)), (3, (2,), (1,))] if th else []):
        r.append(('twice-%d-%s-%s' % (n, a, b), twice, dict(n=n, first=a, then=b)))
    for n, alone, red in [(3, (1,), (1,)), (4, (2,), (0, 2)), (4, (3, 0), (0, 3))] + ([(5, (1,), (1, 2)), (4, (1, 2), (3, 1, 2))] if th else []):
        r.append(('isolated-%d-%s-%s' % (n, alone, red), isolated, dict(n=n, alone=alone, red=red, kind='any')))
    return r
