"""C19: voltages and currents are extracted from simulation results in the order of the buses, phases side by side."""
from engine import ppmodel
from checks.c18 import A as SEQ
from checks.c20 import buses, admittance, ohm
S1, S3, N3, LI, LP = 'src.simulation.simulation', 'src.simulation.simulation_3ph', 'src.simulation.network_3ph', 'src.simulation.lines', \
    'src.simulation.load_profile'
BOUNDS = ('2-3 buses (thorough 4) in any listed order, 1-2 time steps (thorough 3), arbitrary magnitudes and angles, line impedances, and arbitrary '
          'sequence admittance matrices, dense or sparse')
OUTSIDE = 'the sequence admittance matrices of pandapower (a stand-in supplies arbitrary ones)'
ASSUMPTIONS = ('pandapower adds the admittances of lines at the position of their buses', 'cos and sin lie on the unit circle')


def frame(h, a):
    import pandas as pd
    return pd.DataFrame(h.np.array([[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])], dtype=object if h.symbolic else float))


def phasor(h, m, a, i):
    return m[i] * h.np.exp(1j * (a[i] * h.np.pi / 180))


def one(h, ids, T):
    np = h.np
    n = len(ids)
    bs = buses(h, ids, 'p' + 'l' * (n - 1), same=True)
    z = [(ohm(h, 'r%d' % k), ohm(h, 'x%d' % k)) for k in range(n - 1)]
    m = h.mod(S1)
    net = m.SimulatedNet(bs, [h.mod(LI).LineData(ids[k], ids[k + 1], 1.0, None, *z[k]) for k in range(n - 1)])
    h.check(net.get_current_and_voltage() == (None, None), 'nothing before a simulation')
    vm, va = h.real('vm', (T, n), lo=0.5, hi=1.5), h.real('va', (T, n), lo=-90, hi=90)
    net.sim_result = m.SimulationResult(vm_pu=frame(h, vm), va_degree=frame(h, va), p_mw=frame(h, vm), q_mvar=frame(h, vm),
                                        loading_percent=frame(h, vm), result_path=None)
    V, I = net.get_current_and_voltage()
    E = [[phasor(h, vm, va, (t, k)) for k in range(n)] for t in range(T)]
    Y = admittance(h, net, bs, [(k, k + 1) + z[k] for k in range(n - 1)])
    h.eq(np.asarray(V), np.array(E), 'voltages are magnitude and angle in degrees')
    h.eq(np.asarray(I), np.array([[sum(E[t][j] * Y[j, k] for j in range(n)) for k in range(n)] for t in range(T)]),
         'currents follow from the admittance matrix', tol=1e-6)


def sequence(h, n, fmt):
    """install a power flow that leaves arbitrary sequence admittance matrices; returns the expected phase matrix"""
    Ys = [h.cplx('Y%d' % k, (n, n)) for k in range(3)]

    class Sp(object):
        def __init__(self, a):
            self.a = a

        def todense(self):
            return ppmodel.smat(self.a)

        def toarray(self):
            return self.a
    wrap = (lambda a: a) if fmt == 'dense' else h.sp.csr_matrix

    def run(net, *a, **k):
        for i in range(3):
            net['_ppc%d' % i] = {'internal': {'Ybus': wrap(Ys[i].copy())}}
    if h.symbolic:
        ppmodel.POWERFLOW['runpp_3ph'] = run
        if fmt != 'dense':
            wrap = Sp
    else:
        import pandapower
        pandapower.runpp_3ph = run
    M = SEQ(h)
    c = lambda v: v.real - 1j * v.imag if not isinstance(v, int) else v
    E = [[0] * (3 * n) for _ in range(3 * n)]
    for i in range(n):
        for j in range(n):
            for a in range(3):
                for b in range(3):
                    E[3 * i + a][3 * j + b] = sum(M[a][k] * Ys[k][i, j] * c(M[b][k]) for k in range(3)) / 3
    return E


TYP = {'t': dict(r_ohm_per_km=0.1, x_ohm_per_km=0.1, c_nf_per_km=0., max_i_ka=1., r0_ohm_per_km=0.3, x0_ohm_per_km=0.3, c0_nf_per_km=0.)}


def net3(h, ids):
    B = h.mod(LP).BusData
    L = h.mod(LI).LineData
    bs = [B(i, 3 if k == 0 else 1, 0.01, 0.01, kv=4.16) for k, i in enumerate(ids)]
    return h.mod(S3).SimulatedNet3P(TYP, bs, [L(a, b, 1.0, 't') for a, b in zip(ids, ids[1:])])


def three(h, ids, T, fmt):
    np = h.np
    n = len(ids)
    E = sequence(h, n, fmt)
    net = net3(h, ids)
    h.check(net.get_current_and_voltage() == (None, None), 'nothing before a simulation')
    Y = np.asarray(net.make_y_bus())
    h.eq(Y, np.array(E), 'phase admittances, the phases of a bus side by side')
    f = {}
    for c in 'abc':
        f['vm_%s_pu' % c], f['va_%s_degree' % c] = h.real('m' + c, (T, n), lo=0.5, hi=1.5), h.real('a' + c, (T, n), lo=-180, hi=180)
        f['p_%s_mw' % c], f['q_%s_mvar' % c] = f['vm_%s_pu' % c], f['vm_%s_pu' % c]
    net.sim_result = h.mod(S3).SimulationResult3P(result_path=None, **{k: frame(h, v) for k, v in f.items()})
    V, I = net.get_current_and_voltage()
    W = [[phasor(h, f['vm_%s_pu' % 'abc'[k % 3]], f['va_%s_degree' % 'abc'[k % 3]], (t, k // 3)) for k in range(3 * n)] for t in range(T)]
    h.eq(np.asarray(V), np.array(W), 'voltages of the phases of a bus side by side')
    if T == 1:
        h.eq(np.asarray(I), np.array([[sum(W[t][j] * Y[j, k] for j in range(3 * n)) for k in range(3 * n)] for t in range(T)]),
             'currents follow from the admittance matrix', tol=1e-6)


def results(h, net, k, cols, lines):
    """what a power flow leaves: one row per bus, in order"""
    import pandas as pd
    f = lambda v, idx: pd.Series(list(v), index=idx, dtype=object if h.symbolic else float)
    net[k] = pd.DataFrame({c: f(v, list(net.bus.index)) for c, v in cols.items()})
    if lines:
        net.res_line = pd.DataFrame({'loading_percent': f([1.0] * len(net.line), list(net.line.index))})
    net['converged'] = True


def after1(h, ids, T):
    """the same after a whole simulation whose power flow gives arbitrary voltages"""
    from pathlib import Path
    np = h.np
    n = len(ids)
    bs = buses(h, ids, 'p' + 'l' * (n - 1), same=True)
    m = h.mod(S1)
    net = m.SimulatedNet(bs, [h.mod(LI).LineData(a, b, 1.0, None, 0.1, 0.1) for a, b in zip(ids, ids[1:])])
    vm, va = h.real('vm', (T, n), lo=0.5, hi=1.5), h.real('va', (T, n), lo=-90, hi=90)
    t = []

    def run(g, **k):
        t.append(0)
        results(h, g, 'res_bus', {'vm_pu': vm[len(t) - 1], 'va_degree': va[len(t) - 1], 'p_mw': vm[0], 'q_mvar': va[0]}, True)
    L = np.zeros((T, n))
    V, I = net.run(L, L, Path(h.scratch()), False, run=run).get_current_and_voltage()
    E = [[phasor(h, vm, va, (t, k)) for k in range(n)] for t in range(T)]
    h.eq(np.asarray(V), np.array(E), 'voltages of the buses in order', tol=1e-6)
    Y = np.asarray(net.make_y_bus())
    h.eq(np.asarray(I), np.array([[sum(E[t][j] * Y[j, k] for j in range(n)) for k in range(n)] for t in range(T)]),
         'currents follow from the admittance matrix', tol=1e-6)


def after3(h, ids, T):
    from pathlib import Path
    np = h.np
    n = len(ids)
    sequence(h, n, 'dense')
    net = net3(h, ids)
    f = {}
    for c in 'abc':
        f['vm_%s_pu' % c], f['va_%s_degree' % c] = h.real('m' + c, (T, n), lo=0.5, hi=1.5), h.real('a' + c, (T, n), lo=-180, hi=180)
        f['p_%s_mw' % c], f['q_%s_mvar' % c] = f['vm_%s_pu' % c], f['vm_%s_pu' % c]
    t = []

    def run(g, **k):
        t.append(0)
        results(h, g, 'res_bus_3ph', {c: v[len(t) - 1] for c, v in f.items()}, False)
    L = np.zeros((T, len(net.load)))
    V, _ = net.run(L, L, None, Path(h.scratch()), False, run=run).get_current_and_voltage()
    W = [[phasor(h, f['vm_%s_pu' % 'abc'[k % 3]], f['va_%s_degree' % 'abc'[k % 3]], (t, k // 3)) for k in range(3 * n)] for t in range(T)]
    h.eq(np.asarray(V), np.array(W), 'voltages of the phases of a bus side by side', tol=1e-6)


def cases(tier):
    th = tier == 'thorough'
    r = []
    for k, ids in enumerate([[1, 2], [7, 3], [12, 5, 8]] + ([[4, 2, 3, 1]] if th else [])):
        for T in (1, 2, 3) if th else (1, 2):
            r.append(('one-%d-%d' % (k, T), one, dict(ids=ids, T=T)))
    for k, ids in enumerate([[1, 2], [7, 3]] + ([[12, 5, 8]] if th else [])):
        for T in (1, 2):
            for fmt in ('dense', 'sparse'):
                r.append(('three-%d-%d-%s' % (k, T, fmt), three, dict(ids=ids, T=T, fmt=fmt)))
    for k, ids in enumerate([[2, 9, 10], [100, 20, 3]] if th else [[2, 10, 9]]):
        r += [('after1-%d-%d' % (k, T), after1, dict(ids=ids, T=T)) for T in (1, 2)]
        r += [('after3-%d-%d' % (k, T), after3, dict(ids=ids, T=T)) for T in (1, 2)]
    return r
