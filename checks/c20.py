"""C20: networks are built from their description, and their admittance matrix is the one described."""
from engine import ppmodel  # noqa: F401
NW, N3, AN, LI, LP = 'src.simulation.network', 'src.simulation.network_3ph', 'src.simulation.abstract_network', 'src.simulation.lines', \
    'src.simulation.load_profile'
BOUNDS = ('networks of 2-3 (quick) / 2-4 (thorough) buses numbered in any (listed) way, trees, loops and parallel lines, arbitrary loads, voltages, '
          'lengths and impedances; every end order and working state of a line')
OUTSIDE = 'line capacitances; transformers; pandapower itself (its tables and the admittance matrix of lines are modelled, and compared on every replay)'
ASSUMPTIONS = ('pandapower adds the admittances of lines at the position of their buses',)
IDS = {2: [[1, 2], [7, 3]], 3: [[1, 2, 3], [12, 5, 8], [2, 0, 1]], 4: [[1, 2, 3, 4], [40, 10, 30, 20]]}
TOPO = {2: [[(0, 1)], [(0, 1), (0, 1)]], 3: [[(0, 1), (1, 2)], [(0, 2), (2, 1), (0, 1)]], 4: [[(0, 1), (1, 2), (1, 3)], [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]]}


def power(h, n, s=None):
    return h.real(n, s, lo=-0.01, hi=0.01)


def ohm(h, n):
    return h.pyfloat(n, lo=0.02, hi=0.5)


def buses(h, ids, kinds, same=False):
    """bus descriptions: l load, p substation, n nothing"""
    B = h.mod(LP).BusData
    r = []
    for k, (i, t) in enumerate(zip(ids, kinds)):
        kv = h.pyfloat('kv%s' % ('' if same else i), lo=4, hi=20)
        p, q = power(h, 'p%d' % i), power(h, 'q%d' % i)
        z = h.pyfloat('z%d' % i, lo=0, hi=50)
        c = h.pyfloat('c%d' % i, lo=0, hi=50)
        r.append(B(i, dict(l=1, p=3, n=0)[t], p, q, kv=kv, z_perc=z, i_perc=c))
    return r


def table(h, net, bs):
    """rows of the bus, load and external grid tables"""
    h.check(list(net.bus.index) == [b.id for b in bs], 'one bus per description, in order')
    for b in bs:
        h.check(net.bus.name[b.id] == str(b.id), 'buses are named by their number')
        h.eq(net.bus.vn_kv[b.id], b.baseKV, 'voltage of the bus')
    want = [b for b in bs if b.type in (1, 3)]
    h.check(sorted(net.load.bus.values.tolist()) == sorted(b.id for b in want), 'loads are at their buses')
    for b in want:
        i = [k for k in net.load.index if net.load.bus[k] == b.id][0]
        h.eq(net.load.p_mw[i], b.Pd if b.type == 1 else 0.0, 'active power')
        h.eq(net.load.q_mvar[i], b.Qd if b.type == 1 else 0.0, 'reactive power')
        h.eq(net.load.const_z_percent[i], b.Z if b.type == 1 else 0.0, 'share of constant impedance')
        h.eq(net.load.const_i_percent[i], b.I if b.type == 1 else 0.0, 'share of constant current')
    pcc = [b for b in bs if b.type == 3]
    h.check(sorted(net.ext_grid.bus.values.tolist()) == sorted(b.id for b in pcc), 'external grid connections')
    for b in pcc:
        i = [k for k in net.ext_grid.index if net.ext_grid.bus[k] == b.id][0]
        h.eq(net.ext_grid.max_p_mw[i], b.Pd, 'maximum active power of the external grid')
        h.eq(net.ext_grid.max_q_mvar[i], b.Qd, 'maximum reactive power of the external grid')


def admittance(h, net, bs, edges):
    """sum of the admittances of (from, to, r, x) in per unit, at the positions of the buses"""
    n = len(bs)
    Y = [[0.0] * n for _ in range(n)]
    for f, t, r, x in edges:
        kv = bs[f].baseKV
        y = kv * kv / net.sn_mva / (r + 1j * x)
        Y[f][f], Y[t][t] = Y[f][f] + y, Y[t][t] + y
        Y[f][t], Y[t][f] = Y[f][t] - y, Y[t][f] - y
    return h.np.array(Y)


def build(h, ids, topo, how):
    bs = buses(h, ids, 'p' + 'ln'[len(ids) % 2] * (len(ids) - 2) + 'l', same=True)
    L = h.mod(LI).LineData
    ls, edges = [], []
    for k, (f, t) in enumerate(topo):
        r, x, l = ohm(h, 'r%d' % k), ohm(h, 'x%d' % k), h.pyfloat('l%d' % k, lo=0.1, hi=10)
        tree = k < len(ids) - 1
        s = 1 if tree else h.choice('s%d' % k, [0, 1])
        a, b = (f, t) if h.bool('o%d' % k) else (t, f)
        ls.append(L(ids[a], ids[b], l, None, r, x, s=s))
        if s:
            edges.append((f, t, r, x))
    if how == 'init':
        net = h.mod(NW).NetData(bs, ls)
    elif how == 'calls':
        net = h.mod(NW).NetData(bs)
        h.check(net.create_lines(ls) is net, 'calls can be chained')
    else:
        net = h.mod(NW).NetData([])
        for b in bs:
            h.check(net.create_bus(b.id, b.type, b.Pd, b.Qd, b.baseKV, b.Z, b.I) is net, 'calls can be chained')
        for l in ls:
            if l.status:
                h.check(net.create_line(l.start_bus, l.end_bus, l.R, l.X, l.length) is net, 'calls can be chained')
    table(h, net, bs)
    h.check(sorted(tuple(sorted(e)) for e in net.line[['from_bus', 'to_bus']].values.tolist()) ==
            sorted(tuple(sorted((ids[e[0]], ids[e[1]]))) for e in edges), 'one line per working description')
    h.eq(net.line.length_km.values.astype(object), h.np.array([l.length for l in ls if l.status], dtype=object), 'lengths of the lines')
    keep = [str(net[t].values.tolist()) for t in ('bus', 'load', 'line', 'ext_grid')] if not h.symbolic else None
    h.eq(h.np.asarray(net.make_y_bus()), admittance(h, net, bs, edges), 'admittance matrix', tol=1e-6)
    table(h, net, bs)
    if keep:
        h.check(keep == [str(net[t].values.tolist()) for t in ('bus', 'load', 'line', 'ext_grid')], 'the network is not modified')
    h.check('res_bus' not in net or len(net.res_bus) == 0, 'the network is not solved')


def fromy(h, ids, topo, same, pure=None):
    """an admittance matrix becomes lines that have this admittance matrix; pure: the last bus only has resistive (r) or reactive (x) lines"""
    np = h.np
    n = len(ids)
    bs = buses(h, ids, 'p' + 'l' * (n - 1), same=same)
    Y = [[0.0] * n for _ in range(n)]
    zero = []
    for f in range(n):
        for t in range(f):
            if (f, t) in topo or (t, f) in topo:
                tree = sum((a, b) in topo[:n - 1] or (b, a) in topo[:n - 1] for a, b in [(f, t)])
                y = h.real('g%d%d' % (f, t), lo=200, hi=2000) - 1j * h.real('b%d%d' % (f, t), lo=200, hi=2000)
                if pure and f == n - 1:
                    y = h.np.real(y) + 0j if pure == 'r' else 1j * h.np.imag(y)
                if not tree and h.bool('off%d%d' % (f, t)):
                    zero.append((f, t))
                    continue
                Y[f][f], Y[t][t] = Y[f][f] + y, Y[t][t] + y
                Y[f][t], Y[t][f] = Y[f][t] - y, Y[t][f] - y
            else:
                zero.append((f, t))
    Y = np.array(Y)
    Y0 = Y.copy()
    net = h.mod(NW).NetData(bs, [])
    h.check(net.create_lines_from_ybus(Y) is net, 'calls can be chained')
    h.eq(Y, Y0, 'the given matrix is not modified')
    got = sorted(tuple(sorted(e)) for e in net.line[['from_bus', 'to_bus']].values.tolist())
    h.check(got == sorted(tuple(sorted((ids[f], ids[t]))) for f in range(n) for t in range(f) if (f, t) not in zero), 'one line per non-zero entry')
    h.eq(np.asarray(net.make_y_bus()), Y, 'the network has the given admittance matrix', tol=1e-6)


def remove(h, ids, topo, what):
    """removing buses or lines removes exactly those, and the lines and loads of removed buses"""
    n = len(ids)
    bs = buses(h, ids, 'p' + 'l' * (n - 1), same=True)
    L = h.mod(LI).LineData
    zs = [(ohm(h, 'r%d' % k), ohm(h, 'x%d' % k)) for k in range(len(topo))]
    net = h.mod(NW).NetData(bs, [L(ids[f], ids[t], 1.0, None, r, x) for (f, t), (r, x) in zip(topo, zs)])
    lines = list(net.line.index)
    edges = [(f, t, r, x) for (f, t), (r, x) in zip(topo, zs)]
    if what in ('bus', 'buses'):
        # a leaf of the tree, so that the rest stays connected
        gone = [n - 1] if what == 'bus' else [n - 1, n - 2] if n > 3 else [n - 1]
        net.remove_bus(ids[gone[0]]) if what == 'bus' else net.remove_buses([ids[g] for g in gone])
        left = [b for k, b in enumerate(bs) if k not in gone]
        edges = [e for e in edges if e[0] not in gone and e[1] not in gone]
    else:
        drop = [len(lines) - 1] if what == 'line' else list(range(n - 1, len(lines)))
        net.remove_line(lines[drop[0]]) if what == 'line' else net.remove_lines([lines[d] for d in drop])
        left = bs
        h.check(list(net.line.index) == [l for k, l in enumerate(lines) if k not in drop], 'exactly the given lines are removed')
        edges = [e for k, e in enumerate(edges) if k not in drop]
    table(h, net, left)
    h.check(sorted(tuple(sorted(e)) for e in net.line[['from_bus', 'to_bus']].values.tolist()) ==
            sorted(tuple(sorted((ids[e[0]], ids[e[1]]))) for e in edges), 'the remaining lines are those between remaining buses')
    pos = {b.id: k for k, b in enumerate(left)}
    Y = admittance(h, net, left, [(pos[ids[f]], pos[ids[t]], r, x) for f, t, r, x in edges])
    h.eq(h.np.asarray(net.make_y_bus()), Y, 'admittance matrix of the remaining network', tol=1e-6)


def history(h, ids, topo, how):
    """a network that grows and shrinks between two computations of its admittance matrix"""
    n = len(ids)
    bs = buses(h, ids, 'p' + 'l' * (n - 1), same=True)
    L = h.mod(LI).LineData
    edges = [(f, t, ohm(h, 'r%d' % k), ohm(h, 'x%d' % k)) for k, (f, t) in enumerate(topo)]
    tree, more = [e for e in edges if n - 1 not in e[:2]], [e for e in edges if n - 1 in e[:2]]
    line = lambda e: L(ids[e[0]], ids[e[1]], 1.0, None, e[2], e[3])
    net = h.mod(NW).NetData(bs[:-1], [line(e) for e in tree])

    def same(bs_, es, label):
        table(h, net, bs_)
        h.check(sorted(tuple(sorted(e)) for e in net.line[['from_bus', 'to_bus']].values.tolist()) ==
                sorted(tuple(sorted((ids[e[0]], ids[e[1]]))) for e in es), 'lines ' + label)
        h.eq(h.np.asarray(net.make_y_bus()), admittance(h, net, bs_, es), 'admittance matrix ' + label, tol=1e-6)
    same(bs[:-1], tree, 'at first')
    net.create_bus(bs[-1].id, bs[-1].type, bs[-1].Pd, bs[-1].Qd, bs[-1].baseKV, bs[-1].Z, bs[-1].I) if how == 'single' else net.create_buses(bs[-1:])
    for e in more:
        net.create_line(ids[e[0]], ids[e[1]], e[2], e[3], 1.0) if how == 'single' else net.create_lines([line(e)])
    same(bs, tree + more, 'after a bus and lines were added')
    twice = (0, 1, ohm(h, 'r'), ohm(h, 'x'))
    net.create_lines([line(twice)])
    same(bs, tree + more + [twice], 'with a second line between two buses')
    net.remove_lines([net.line.index[-1]])
    same(bs, tree + more, 'without this line again')
    net.remove_buses([ids[-1]])
    same(bs[:-1], [e for e in edges if n - 1 not in e[:2]], 'without the last bus again')
    other = net.deepcopy()
    other.remove_line(other.line.index[0])
    same(bs[:-1], [e for e in edges if n - 1 not in e[:2]], 'after a line was removed from a copy')


def build3(h, ids, kinds, topo, how):
    """three-phase networks: symmetric loads, loads given per phase, line types"""
    np = h.np
    B, L = h.mod(LP).BusData, h.mod(LI).LineData
    cols = ('r_ohm_per_km', 'x_ohm_per_km', 'c_nf_per_km', 'r0_ohm_per_km', 'x0_ohm_per_km', 'c0_nf_per_km', 'max_i_ka')
    typ = {t: {c: h.pyfloat(t + c, lo=0.1, hi=1) for c in cols} for t in ('s', 't')}
    bs = []
    for i, t in zip(ids, kinds):
        p, q = (h.real('p%d' % i, (3,)), h.real('q%d' % i, (3,))) if t == 'a' else (h.pyfloat('p%d' % i), h.pyfloat('q%d' % i))
        bs.append(B(i, dict(p=3, a=1, l=1, n=0)[t], p, q, kv=h.pyfloat('kv%d' % i, lo=1, hi=20), **({} if t == 'a' else dict(
            z_perc=h.pyfloat('z%d' % i, lo=0, hi=50), i_perc=h.pyfloat('c%d' % i, lo=0, hi=50)))))
    ls, edges = [], []
    for k, (f, t) in enumerate(topo):
        l, ty = h.pyfloat('l%d' % k, lo=0.1, hi=10), 'st'[k % 2]
        s = h.choice('s%d' % k, [1, 0]) if k else 1
        a, b = (f, t) if (h.bool('o%d' % k) if k < 2 else k % 2) else (t, f)
        ls.append(L(ids[a], ids[b], l, ty, s=s))
        if s:
            edges.append((tuple(sorted((ids[a], ids[b]))), l, ty))
    if how == 'init':
        net = h.mod(N3).NetData3P(typ, bs, ls)
    else:
        net = h.mod(N3).NetData3P(typ)
        h.check(net.create_buses(bs) is net, 'calls can be chained')
        h.check(net.create_lines(ls) is net, 'calls can be chained')
    h.check(list(net.bus.index) == ids, 'one bus per description, in order')
    for b in bs:
        h.eq(net.bus.vn_kv[b.id], b.baseKV, 'voltage of the bus')
    sym, asy = [b for b, k in zip(bs, kinds) if k in 'lp'], [b for b, k in zip(bs, kinds) if k == 'a']
    h.check(sorted(net.load.bus.values.tolist()) == sorted(b.id for b in sym), 'symmetric loads are at their buses')
    h.check(sorted(net.asymmetric_load.bus.values.tolist()) == sorted(b.id for b in asy), 'loads per phase are at their buses')
    for b in sym:
        i = [k for k in net.load.index if net.load.bus[k] == b.id][0]
        h.eq(net.load.p_mw[i], b.Pd if b.type == 1 else 0.0, 'active power')
        h.eq(net.load.q_mvar[i], b.Qd if b.type == 1 else 0.0, 'reactive power')
        h.eq(net.load.const_z_percent[i], b.Z if b.type == 1 else 0.0, 'share of constant impedance')
        h.eq(net.load.const_i_percent[i], b.I if b.type == 1 else 0.0, 'share of constant current')
    for b in asy:
        i = [k for k in net.asymmetric_load.index if net.asymmetric_load.bus[k] == b.id][0]
        for c in range(3):
            h.eq(net.asymmetric_load['p_%s_mw' % 'abc'[c]][i], b.Pd[c], 'active power of phase %d' % c)
            h.eq(net.asymmetric_load['q_%s_mvar' % 'abc'[c]][i], b.Qd[c], 'reactive power of phase %d' % c)
    pcc = [b for b in bs if b.type == 3]
    h.check(net.ext_grid.bus.values.tolist() == [b.id for b in pcc], 'external grid connections')
    for b in pcc:
        h.eq(net.ext_grid.max_p_mw.values[0], b.Pd, 'maximum active power of the external grid')
        h.eq(net.ext_grid.max_q_mvar.values[0], b.Qd, 'maximum reactive power of the external grid')
    h.check(len(net.line) == len(edges), 'one line per working description')
    for i, (e, l, ty) in zip(list(net.line.index), edges):
        h.check(tuple(sorted((net.line.from_bus[i], net.line.to_bus[i]))) == e, 'end buses of the line')
        h.check(net.line.std_type[i] == ty, 'type of the line')
        h.eq(net.line.length_km[i], l, 'length of the line')
        for c in cols if how == 'init' else cols[:3]:
            h.eq(net.line[c][i], typ[ty][c], 'parameters of the type: ' + c)


def cases(tier):
    th = tier == 'thorough'
    r = []
    for n in (2, 3, 4) if th else (2, 3):
        for a, ids in enumerate(IDS[n]):
            for b, topo in enumerate(TOPO[n]):
                for how in ('init', 'calls', 'single'):
                    if th or (a + b + len(how)) % 2:
                        r.append(('build-%d-%d-%d-%s' % (n, a, b, how), build, dict(ids=ids, topo=topo, how=how)))
                if b != 1 or n != 2:
                    for same in (True, False):
                        r.append(('fromy-%d-%d-%d-%s' % (n, a, b, same), fromy, dict(ids=ids, topo=topo, same=same)))
                    if th or a == b:
                        r += [('pure-%d-%d-%d-%s' % (n, a, b, k), fromy, dict(ids=ids, topo=topo, same=True, pure=k)) for k in 'rx']
                if len(topo) > n - 1:
                    r += [('remove-%d-%d-%d-%s' % (n, a, b, w), remove, dict(ids=ids, topo=topo, what=w)) for w in ('line', 'lines')]
                elif n > 2:
                    r += [('remove-%d-%d-%d-%s' % (n, a, b, w), remove, dict(ids=ids, topo=topo, what=w)) for w in ('bus', 'buses')]
    for n, a, b, how in [(3, 0, 0, 'single'), (3, 1, 1, 'calls')] + ([(4, 0, 0, 'calls'), (4, 1, 1, 'single')] if th else []):
        r.append(('history-%d-%d-%d-%s' % (n, a, b, how), history, dict(ids=IDS[n][a], topo=TOPO[n][b], how=how)))
    if not th:
        r.append(('remove-4-1-0-buses', remove, dict(ids=IDS[4][1], topo=TOPO[4][0], what='buses')))
    for n, ids, kinds in [(2, [1, 2], 'pa'), (2, [7, 3], 'al'), (3, [12, 5, 8], 'lpa'), (3, [2, 0, 1], 'npa')]:
        for b, topo in enumerate(TOPO[n]):
            for how in ('init', 'calls'):
                if th or (b + len(how) + ids[0]) % 2:
                    r.append(('three-%s-%d-%s' % (kinds, b, how), build3, dict(ids=ids, kinds=kinds, topo=topo, how=how)))
    return r
