"""C26: the reduced network is the one seen from the nodes whose measurements are kept."""
from engine import ppmodel  # noqa: F401
from checks.c17 import det
from checks.c24 import TYP
NW, N3, LP, R1, R3 = 'src.simulation.network', 'src.simulation.network_3ph', 'src.simulation.load_profile', 'src.simulation.run', 'src.simulation.run3ph'
BOUNDS = ('2-5 buses in any listed order with one or two sources, 1-2 samples, up to two reduced nodes (three-phase: up to 3 nodes, three reduced phases); '
          'every complex admittance matrix, voltage and current for which the reduced block is invertible and hidden voltages are not zero on average')
OUTSIDE = 'larger networks; singular reduced blocks (the code uses a pseudo-inverse there); the pandapower admittance matrix itself (see C20)'
ASSUMPTIONS = ('numpy.linalg.pinv of an invertible matrix is its inverse',)

# phases without loads
EMPTY = {'a': (0,), 'b': (1,), 'c': (0, 2), 'd': (0, 1), 'e': (1, 2), 'f': (2,)}


def build(h, ids, kinds, three, Y):
    B = h.mod(LP).BusData
    bs = []
    for k, (i, t) in enumerate(zip(ids, kinds)):
        if t in EMPTY:
            # only the other phases have loads, active or reactive
            p = [float(c not in EMPTY[t]) for c in range(3)]
            z = [0.0, 0.0, 0.0]
            bs.append(B(i, 1, h.np.array(z if k % 2 else p), h.np.array(p)))
        else:
            bs.append(B(i, dict(p=3, l=1, z=1, n=0)[t], 1.0 if t == 'l' else 0.0, 0.5 if t == 'l' else 0.0))
    m = h.mod(N3 if three else NW)
    cls = m.NetData3P if three else m.NetData

    class N(cls):
        def make_y_bus(self):
            return Y.copy()
    return N(TYP, bs) if three else N(bs)


def reduced(ids, kinds, three, hidden, single):
    """positions of the columns of sources, of passive and of hidden nodes"""
    P = 3 if three else 1
    pcc, pas, hid = [], [], []
    for k, t in enumerate(kinds):
        for c in range(P):
            j = P * k + c
            if t == 'p':
                pcc.append(j)
            elif ids[k] in hidden:
                hid.append(j)
            if t in 'zn' or t in EMPTY and single and c in EMPTY[t]:
                pas.append(j)
    return pcc, pas, hid


def call(h, net, V, I, hidden, three, lap, single):
    m = h.mod(R3 if three else R1)
    hid = list(hidden)
    if three:
        r = m.reduce_network(net, V, I, hid, lap, single, verbose=False)
    else:
        r = m.reduce_network(net, V, I, hid, lap, verbose=False)
    h.check(hid == list(hidden), 'the list of hidden nodes is kept')
    return r


def formula(h, ids, kinds, three, hidden, lap, single, T):
    """deleted columns; sources are cut out, hidden loads become shunts, the rest is the Schur complement"""
    np = h.np
    n = len(ids) * (3 if three else 1)
    Y, V, I = h.cplx('y', (n, n)), h.cplx('v', (T, n)), h.cplx('i', (T, n))
    pcc, pas, hid = reduced(ids, kinds, three, hidden, single)
    cut = pcc if three or not lap else []
    red = sorted(set(pas) | set(hid))
    keep = [j for j in range(n) if j not in red and j not in cut]
    E = [[Y[a, b] for b in range(n)] for a in range(n)]
    for j in hid:
        mv = sum(V[t, j] for t in range(T)) / T
        h.assume(abs(mv) ** 2 > (0 if h.symbolic else 1e-4))
        E[j][j] = E[j][j] - sum(I[t, j] for t in range(T)) / T / mv
    R = [[E[a][b] for b in red] for a in red]
    d = det(h, R)
    if red:
        h.assume(abs(d) ** 2 > (0 if h.symbolic else 1e-4))
    Y0, V0, I0 = Y.copy(), V.copy(), I.copy()
    net = build(h, ids, kinds, three, Y)
    idx, yr = call(h, net, V, I, hidden, three, lap, single)
    h.check(sorted(set(int(i) for i in idx)) == sorted(set(red) | set(cut)), 'columns of sources, passive and hidden nodes are deleted')
    h.eq(np.delete(V0, idx, axis=1), V0[:, keep], 'the other columns are kept')
    h.check(np.shape(yr) == (len(keep), len(keep)), 'one row and column per kept measurement')

    def schur(a, b):
        # determinant of the bordered block over the determinant of the block
        if not red:
            return E[a][b]
        return det(h, [[E[a][b]] + [E[a][j] for j in red]] + [[E[i][b]] + [E[i][j] for j in red] for i in red]) / d
    if keep:
        h.eq(np.asarray(yr), np.array([[schur(a, b) for b in keep] for a in keep]), 'sources cut out, hidden loads as shunts, Schur complement')
    for a, b, s in ((Y, Y0, 'admittances'), (V, V0, 'voltages'), (I, I0, 'currents')):
        h.eq(a, b, 'the %s are kept' % s)


def seen(h, ids, kinds, three, hidden, lap, single, T):
    """with constant hidden loads and constant source voltages, the kept currents vary as the reduced network says"""
    np = h.np
    n = len(ids) * (3 if three else 1)
    Y, V = h.cplx('y', (n, n)), h.cplx('v', (T, n))
    pcc, pas, hid = reduced(ids, kinds, three, hidden, single)
    cut = pcc if three or not lap else []
    red = sorted(set(pas) | set(hid))
    keep = [j for j in range(n) if j not in red and j not in cut]
    for j in cut:
        for t in range(T):
            V[t, j] = V[0, j]
    a = red[0]
    load = h.cplx('load') if a in hid and a not in pas else 0
    # choose a kept neighbour's voltage such that the load's current matches
    k = keep[-1]
    h.assume(abs(Y[k, a]) ** 2 > (0 if h.symbolic else 1e-4))
    h.assume(abs(Y[a, a] + load) ** 2 > (0 if h.symbolic else 1e-4))
    I = np.zeros((T, n)) * 1j
    for t in range(T):
        V[t, k] = -(load * V[t, a] + sum(V[t, j] * Y[j, a] for j in range(n) if j != k)) / Y[k, a]
        for b in range(n):
            I[t, b] = -load * V[t, b] if b == a else sum(V[t, j] * Y[j, b] for j in range(n))
    for j in hid:
        h.assume(abs(sum(V[t, j] for t in range(T)) / T) ** 2 > (0 if h.symbolic else 1e-4))
    net = build(h, ids, kinds, three, Y)
    idx, yr = call(h, net, V, I, hidden, three, lap, single)
    v, i = np.delete(V, idx, axis=1), np.delete(I, idx, axis=1)
    if cut:
        v, i = v[1:] - v[:-1], i[1:] - i[:-1]
    h.eq(i, v @ np.asarray(yr), 'variations of kept currents are those of the reduced network')


def cases(tier):
    th = tier == 'thorough'
    r = []
    one = [([1, 2], 'pl', []), ([1, 2, 3], 'plz', []), ([7, 3, 5], 'lpl', [7]), ([1, 2, 4], 'pll', [2]), ([4, 9, 2], 'lzp', [2]), ([3, 1, 2, 0], 'lplp', [2]),
           ([12, 5, 8, 6], 'plzl', [6]), ([5, 0, 8, 6], 'plll', [8, 0]), ([5, 0, 8, 6], 'pzll', [0]), ([1, 2, 3, 4], 'plpl', [2]), ([9, 1, 2, 4, 3], 'plplz', [4]),
           ([1, 2, 3], 'pll', [1, 3])]
    three = [([1, 2], 'pl', []), ([2, 7], 'lp', []), ([1, 2], 'pa', []), ([3, 1], 'bp', []), ([2, 1], 'cp', []), ([1, 2], 'pd', []), ([4, 2], 'ep', []),
             ([1, 2], 'pf', [])]
    big = [([1, 2, 3], 'pzl', []), ([3, 1, 2], 'lpz', [])] + ([([1, 2, 3], 'pal', [])] if th else [])
    for k, (ids, kinds, hid) in enumerate(one):
        for lap in (False, True):
            for T in (1, 2) if th else (2,):
                r.append(('one-%d-%s-%d' % (k, lap, T), formula, dict(ids=ids, kinds=kinds, three=False, hidden=hid, lap=lap, single=True, T=T)))
        pcc, pas, hd = reduced(ids, kinds, False, hid, True)
        if len(set(pas) | set(hd)) == 1:
            for lap in (False, True):
                r.append(('seen-%d-%s' % (k, lap), seen, dict(ids=ids, kinds=kinds, three=False, hidden=hid, lap=lap, single=True, T=1 if lap else 2)))
    for k, (ids, kinds) in enumerate([([1, 2], 'pa'), ([3, 1], 'bp')]):
        r.append(('seen-three-%d' % k, seen, dict(ids=ids, kinds=kinds, three=True, hidden=[], lap=bool(k), single=True, T=2)))
    for k, (ids, kinds, hid) in enumerate(three + big):
        for single in (True, False):
            r.append(('three-%d-%s' % (k, single), formula, dict(ids=ids, kinds=kinds, three=True, hidden=hid, lap=bool(k % 2), single=single, T=1)))
    return r
