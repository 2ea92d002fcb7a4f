"""C29: the simulation command passes the configuration on and saves the kept measurements with their ratings, phases and admittances."""
import inspect
from engine import ppmodel  # noqa: F401
from checks.c24 import dirs, TYP
from checks.c18 import A
S = 'simulate_network'
LP, LI, NT, N3 = 'src.simulation.load_profile', 'src.simulation.lines', 'src.simulation.net_templates', 'src.simulation.net_templates_3ph'
R1, R3 = 'src.simulation.run', 'src.simulation.run3ph'
BOUNDS = ('2-3 buses in any listed order, 1-2 samples, any listed set of reduced columns; every voltage, current, admittance, rating, configured deviation and block length; '
          'every combination of the redo options, Laplacian or not, phases or sequences')
OUTSIDE = 'the steps themselves (C24-C26): stand-ins supply arbitrary results; parsing of the options (click); configuration values other than those named'
ASSUMPTIONS = ('numpy restores saved arrays unchanged', 'click passes options on as documented')


def template(h, ids, kinds, three, name):
    B, L = h.mod(LP).BusData, h.mod(LI).LineData
    bs = []
    for i, t in zip(ids, kinds):
        bs.append(B(i, dict(p=3, l=1, n=0)[t], float(t == 'l'), float(t == 'l'), kv=4.16))
    t = h.mod(N3 if three else NT)
    setattr(t, name + '_bus', bs)
    setattr(t, name + '_net', [L(a, b, 1.0, 't', 0.1, 0.1) for a, b in zip(ids, ids[1:])])
    for m in (t, h.mod(R3), h.mod(S)):
        if hasattr(m, 'ieee123_types'):
            m.ieee123_types = TYP


def stand(h, mod, name, f, log):
    """replace a step by one that records its arguments by name"""
    real = getattr(mod, name)
    sig = inspect.signature(real)

    def g(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        log.append((name, dict(b.arguments)))
        return f(b.arguments)
    setattr(mod, name, g)


def run(h, ids, kinds, three, T, keep, lap, seq, redo, gauss, eq, const, hidden):
    np = h.np
    dirs(h)
    template(h, ids, kinds, three, 'x')
    conf = h.mod('conf.simulation')
    P = 3 if three else 1
    n, k = len(ids) * P, len(keep)
    cfg = {c: h.pyfloat(c, lo=0) for c in ('voltage_magnitude_sd', 'current_magnitude_sd', 'voltage_phase_sd', 'current_phase_sd', 'safety_factor')}
    conf.hidden_nodes, conf.constant_load_hidden_nodes = list(hidden), const
    conf.selected_weeks, conf.days, conf.time_steps, conf.measurement_frequency = np.array([4, 2]), 5, 7, 50
    for c, v in cfg.items():
        setattr(conf, c, v)
    m = h.mod(R3 if three else R1)
    log = []
    V, I, A = h.cplx('v', (T, n)), h.cplx('i', (T, n)), h.cplx('y', (n, n))
    nv, ni = h.cplx('nv', (T, n)), h.cplx('ni', (T, n))
    fv, fi = h.cplx('fv', (T, n)), h.cplx('fi', (T, n))
    R, F = h.real('r', (n,), lo=0), h.real('f', lo=1)
    K = h.cplx('k', (k, k), nonzero=True)
    Y = 3 * _seqm(h, k).conj() @ K @ _seqm(h, k) if seq else K
    tm_, ld = h.real('times', (T,)), [h.real('load%d' % j, (T, 2)) for j in range(3)]
    cut = [j for j in range(n) if j not in keep]
    stand(h, m, 'generate_loads', lambda a: tuple(ld[:2 + three]) + (tm_,), log)
    stand(h, m, 'simulate_net', lambda a: (V.copy(), I.copy(), A.copy()), log)
    stand(h, m, 'add_noise_and_filter', lambda a: (nv.copy(), ni.copy(), fv.copy(), fi.copy(), R.copy(), F), log)
    stand(h, m, 'reduce_network', lambda a: (list(cut), Y.copy()), log)
    flags = [f for f, on in (('-t', three), ('-q', seq), ('-e', eq), ('-l', lap)) if on] + ['-%s' % c for c in redo]
    loads = redo in ('', 'p') or 'p' in redo
    import os
    act, rea = [os.path.join(h.scratch(), f) for f in ('a.npy', 'b.npy')]
    for f in (act, rea):
        open(f, 'w').close()
    h.mod(S).simulate.main(['-n', 'x', '-a', act, '-r', rea] + (['-g', '0.25'] if gauss else []) + flags, standalone_mode=False)
    h.check([c[0] for c in log] == ['generate_loads', 'simulate_net', 'add_noise_and_filter', 'reduce_network'], 'every step is run once, in order')
    g, s, f, r = [c[1] for c in log]
    net = g['net']
    h.check(net.name == 'x' and list(net.bus.index) == list(ids), 'the network asked for')
    h.check(s['net'] is net and f['net'] is net and r['net'] is net, 'all steps use the same network')
    # loads
    if not loads:
        h.check(g['load_params'] is None, 'loads are read back')
    else:
        p = g['load_params']
        if gauss:
            h.check(p[0] is None and p[1] is None and float(p[2]) == 0.25, 'Gaussian loads of the deviation asked for')
        else:
            h.check(str(p[0]) == act and str(p[1]) == rea and list(p[2]) == [4, 2], 'the profiles and weeks asked for')
        h.check(p[3] == 5, 'configured days')
        src = [i for i, t in zip(ids, kinds) if t == 'p']
        got = [] if p[4] is None else [i for i in p[4] if i not in src]
        h.check(sorted(got) == (sorted(i for i in hidden if i not in src) if const else []), 'hidden nodes have constant loads when configured')
    # time series
    a = [s[c] for c in (('load_p', 'load_q', 'load_asym') if three else ('load_p', 'load_q'))]
    if redo == '' or 's' in redo:
        for x, y in zip(a, ld):
            h.eq(x, y, 'simulated loads')
    else:
        h.check(all(x is None for x in a), 'voltages and currents are read back')
    # noise
    b = list(f.values())
    h.eq(b[1], V, 'voltages to measure')
    h.eq(b[2], I, 'currents to measure')
    h.eq(b[3], tm_, 'times of the loads')
    h.check(b[4] == 50 and b[5] == 7, 'configured sampling')
    if redo == '' or 'd' in redo:
        c = ('voltage_magnitude_sd', 'current_magnitude_sd', 'voltage_phase_sd', 'current_phase_sd')
        for x, y in zip(b[6][:4], c):
            h.eq(x, cfg[y], 'configured ' + y)
        h.check(bool(b[6][4]) == eq, 'equivalent noise when asked for')
        h.eq(np.ones(P) * b[6][5], np.ones(P) * cfg['safety_factor'], 'configured safety factor')
    else:
        h.check(b[6] is None, 'measurements are read back')
    # reduction
    b = list(r.values())
    h.eq(b[1], fv, 'the reduction uses actual voltages')
    h.eq(b[2], fi, 'the reduction uses actual currents')
    h.check(set(b[3]) == set(hidden) | (set() if lap or three else {i for i, t in zip(ids, kinds) if t == 'p'}),
            'configured hidden nodes are reduced, and sources too unless Laplacian or three-phase')
    h.check(bool(b[4]) == lap, 'Laplacian when asked for')
    if three:
        h.check(bool(b[5]) == (not seq), 'single phases are reduced only without sequences')
    h.check(list(conf.hidden_nodes) == list(hidden), 'the configuration is kept')
    # what is saved
    D = np.load(h.mod('conf.conf').DATA_DIR / 'simulations_output/x.npz')
    for key, X, lab in (('v', nv, 'measured voltages'), ('i', ni, 'measured currents'), ('w', fv, 'actual voltages'), ('j', fi, 'actual currents')):
        X = X[:, keep]
        h.eq(D[key], X @ _seqm(h, k) if seq else X, 'saved ' + lab)
    h.eq(D['y'], K, 'saved admittances')
    h.eq(D['p'], R[keep], 'saved ratings')
    h.eq(D['f'], F, 'saved block length')
    h.check([int(x) for x in D['h']] == [(j % 3) + (0 if seq else 1) if three else 1 for j in keep], 'saved phases of the kept measurements')


def _seqm(h, k):
    """rows of sequence components from rows of phases"""
    np = h.np
    c = lambda v: v.real - 1j * v.imag if not isinstance(v, int) else v
    M = A(h)
    E = [[0] * k for _ in range(k)]
    for n in range(k // 3):
        for a in range(3):
            for b in range(3):
                E[3 * n + a][3 * n + b] = c(M[a][b]) / 3
    return np.array(E)


def cases(tier):
    th = tier == 'thorough'
    r = []
    one = dict(three=False, T=1, seq=False, gauss=False, eq=False, const=True, hidden=[2])
    def add(name, **k):
        r.append((name, run, dict(one, **k)))
    redos = ['', 'p', 's', 'd', 'ps', 'sd', 'pd', 'psd']
    for j, redo in enumerate(redos):
        for lap in (False, True):
            for gauss in (False, True):
                if not th and (lap + gauss + j) % 2:
                    continue
                add('one-%s-%s-%s' % (redo, lap, gauss), ids=[4, 2, 7], kinds='pll', keep=[0, 2] if lap else [2], lap=lap, redo=redo, gauss=gauss, eq=bool(j % 2), const=bool(j % 3))
            add('three-%s-%s' % (redo, lap), ids=[4, 2, 7], kinds='lpl', three=True, keep=[0, 2, 7], lap=lap, redo=redo, hidden=[7], eq=not j % 2, const=bool(j % 3))
    add('order', ids=[7, 3, 5], kinds='lnp', keep=[0, 1], lap=False, redo='', hidden=[], T=2)
    add('none', ids=[7, 3, 5], kinds='plp', keep=[1], lap=False, redo='', hidden=[3])
    add('all', ids=[1, 2], kinds='pl', keep=[0, 1], lap=True, redo='', hidden=[])
    for lap in (False, True):
        for keep in ([0, 1, 2], [3, 4, 5]) + (([0, 1, 2, 6, 7, 8],) if th else ()):
            add('sequence-%s-%d-%d' % (lap, keep[0], len(keep)), ids=[3, 1, 2], kinds='lpl', three=True, seq=True, keep=keep, lap=lap, redo='', hidden=[1])
    return r
