"""C21: in a time series every load follows its own column of the given powers, and the results are read back unchanged."""
from engine import ppmodel
from checks.c20 import buses
S1, S3, LI, LP = 'src.simulation.simulation', 'src.simulation.simulation_3ph', 'src.simulation.lines', 'src.simulation.load_profile'
BOUNDS = ('networks of 2-3 (quick) / 2-4 (thorough) buses in any listed order with any loads, 1-2 (quick) / 1-3 (thorough) time steps, '
          'arbitrary powers, symmetric and asymmetric loads')
OUTSIDE = 'the power flow solver of pandapower (a recording stand-in is passed in its place); constant-impedance behaviour'
ASSUMPTIONS = ('pandapower applies constant-profile controllers before each step and logs the chosen variables of every step (compared on replays)',)


def frame(h, net, cols, idx):
    """result table with one row per bus, as the power flow writes it"""
    import pandas as pd
    return pd.DataFrame({c: pd.Series([v[i] for i in range(len(idx))], index=idx, dtype=object if h.symbolic else float) for c, v in cols.items()})


def loads_at(net, table, var, b):
    t = net[table]
    return [t[var][i] for i in t.index if t.bus[i] == b]


def powerflow(h, name, run):
    """the power flow used when none is given"""
    if h.symbolic:
        ppmodel.POWERFLOW[name] = run
    else:
        import pandapower
        setattr(pandapower, name, run)


def sim1(h, ids, kinds, T, default=False):
    bs = buses(h, ids, kinds, same=True)
    L = h.mod(LI).LineData
    net = h.mod(S1).SimulatedNet(bs, [L(a, b, 1.0, None, 0.1, 0.1) for a, b in zip(ids, ids[1:])])
    P, Q = h.real('P', (T, len(net.load))), h.real('Q', (T, len(net.load)))
    P0, Q0 = P.copy(), Q.copy()
    seen = []

    def run(n, **k):
        seen.append(k)
        p = [sum(loads_at(n, 'load', 'p_mw', b)) if loads_at(n, 'load', 'p_mw', b) else 0.0 for b in n.bus.index]
        q = [sum(loads_at(n, 'load', 'q_mvar', b)) if loads_at(n, 'load', 'q_mvar', b) else 0.0 for b in n.bus.index]
        idx = list(n.bus.index)
        n.res_bus = frame(h, n, dict(vm_pu=[1 + x for x in p], va_degree=[2 * x for x in q], p_mw=p, q_mvar=q), idx)
        n.res_line = frame(h, n, dict(loading_percent=[3.0 + p[0]] * len(n.line)), list(n.line.index))
        n['converged'] = True
    from pathlib import Path
    before = {c: list(net.load[c].values) for c in ('p_mw', 'q_mvar')}
    h.check(net.sim_result is None, 'no results before the simulation')
    if default:
        powerflow(h, 'runpp', run)
    opts = dict(calculate_voltage_angles=h.choice('angles', [True, False]), tolerance_mva=h.choice('tol', [1e-8, 1e-2]))
    r = net.run(P, Q, output_path=Path(h.scratch()), verbose=False, **opts, **({} if default else {'run': run}))
    h.check(r is net, 'calls can be chained')
    h.check(len(seen) == T and all({c: k.get(c) for c in opts} == opts for k in seen), 'the power flow runs once per step with the given options')
    for c in before:
        h.eq(h.np.array(list(net.load[c].values), dtype=object), h.np.array(before[c], dtype=object), 'the network keeps its nominal loads')
    h.eq(P, P0, 'the powers given are not modified')
    h.eq(Q, Q0, 'the powers given are not modified')
    s = net.sim_result
    n = len(ids)
    where = list(net.load.bus.values)
    ep = [[sum(P[t, k] for k, b in enumerate(where) if b == i) if i in where else 0.0 for i in ids] for t in range(T)]
    eq = [[sum(Q[t, k] for k, b in enumerate(where) if b == i) if i in where else 0.0 for i in ids] for t in range(T)]
    A = lambda m: h.np.array(m, dtype=object)
    h.eq(s.p_mw.values, A(ep), 'active power of every bus at every step')
    h.eq(s.q_mvar.values, A(eq), 'reactive power of every bus at every step')
    h.eq(s.vm_pu.values, A([[1 + x for x in r] for r in ep]), 'voltage magnitudes', tol=1e-6)
    h.eq(s.va_degree.values, A([[2 * x for x in r] for r in eq]), 'voltage angles', tol=1e-6)
    h.eq(s.loading_percent.values, A([[3.0 + r[0]] * (n - 1) for r in ep]), 'loading of the lines', tol=1e-6)


def sim3(h, ids, kinds, T, asym, default=False):
    B = h.mod(LP).BusData
    L = h.mod(LI).LineData
    typ = {'t': dict(r_ohm_per_km=0.1, x_ohm_per_km=0.1, c_nf_per_km=0., max_i_ka=1., r0_ohm_per_km=0.3, x0_ohm_per_km=0.3, c0_nf_per_km=0.)}
    bs = []
    for i, t in zip(ids, kinds):
        p, q = (h.real('p%d' % i, (3,)), h.real('q%d' % i, (3,))) if t == 'a' else (h.pyfloat('p%d' % i), h.pyfloat('q%d' % i))
        bs.append(B(i, 3 if t == 'p' else 1, p, q, kv=4.16))
    net = h.mod(S3).SimulatedNet3P(typ, bs, [L(a, b, 1.0, 't') for a, b in zip(ids, ids[1:])])
    P, Q = h.real('P', (T, len(net.load))), h.real('Q', (T, len(net.load)))
    na = len(net.asymmetric_load)
    S = [h.real('S%d' % k, (T, na)) for k in range(6)] if asym else None
    ph = 'abc'
    seen = []

    def run(n, **k):
        seen.append(k)
        cols = {}
        idx = list(n.bus.index)
        for c in range(3):
            p, q = [], []
            for b in idx:
                p.append(sum([x / 3 for x in loads_at(n, 'load', 'p_mw', b)] + loads_at(n, 'asymmetric_load', 'p_%s_mw' % ph[c], b) + [0.0]))
                q.append(sum([x / 3 for x in loads_at(n, 'load', 'q_mvar', b)] + loads_at(n, 'asymmetric_load', 'q_%s_mvar' % ph[c], b) + [0.0]))
            cols['p_%s_mw' % ph[c]], cols['q_%s_mvar' % ph[c]] = p, q
            cols['vm_%s_pu' % ph[c]], cols['va_%s_degree' % ph[c]] = [(c + 1) + x for x in p], [(c + 2) * x for x in q]
        n.res_bus_3ph = frame(h, n, cols, idx)
        n['converged'] = True
    from pathlib import Path
    if default:
        powerflow(h, 'runpp_3ph', run)
    before = {(t, c): list(net[t][c].values) for t in ('load', 'asymmetric_load') for c in net[t].columns if c[:2] in ('p_', 'q_')}
    given = [x.copy() for x in [P, Q] + (S or [])]
    opts = dict(calculate_voltage_angles=h.choice('angles', [True, False]))
    v = h.choice('voltage', [None, True, False])
    opts.update({} if v is None else {'voltage_depend_loads': v})
    r = net.run(P, Q, *([S] if asym else []), output_path=Path(h.scratch()), verbose=False, **opts, **({} if default else {'run': run}))
    opts.setdefault('voltage_depend_loads', True)
    h.check(len(seen) == T and all({c: k.get(c) for c in opts} == opts for k in seen), 'the power flow runs once per step with the given options')
    for t, c in before:
        h.eq(h.np.array(list(net[t][c].values), dtype=object), h.np.array(before[t, c], dtype=object), 'the network keeps its nominal loads')
    for x, y in zip([P, Q] + (S or []), given):
        h.eq(x, y, 'the powers given are not modified')
    h.check(r is net, 'calls can be chained')
    s = net.sim_result
    wl, wa = list(net.load.bus.values), list(net.asymmetric_load.bus.values)
    nom = {}
    for b in bs:
        if not h.np.isscalar(b.Pd):
            nom[b.id] = ([b.Pd[c] for c in range(3)], [b.Qd[c] for c in range(3)])
    A = lambda m: h.np.array(m, dtype=object)
    for c in range(3):
        ep, eq = [], []
        for t in range(T):
            rp, rq = [], []
            for i in ids:
                x, y = 0.0, 0.0
                if i in wl:
                    x, y = P[t, wl.index(i)] / 3, Q[t, wl.index(i)] / 3
                if i in wa:
                    k = wa.index(i)
                    x, y = (x + S[c][t, k], y + S[3 + c][t, k]) if asym else (x + nom[i][0][c], y + nom[i][1][c])
                rp.append(x)
                rq.append(y)
            ep.append(rp)
            eq.append(rq)
        h.eq(getattr(s, 'p_%s_mw' % ph[c]).values, A(ep), 'active power of phase %s' % ph[c], tol=1e-6)
        h.eq(getattr(s, 'q_%s_mvar' % ph[c]).values, A(eq), 'reactive power of phase %s' % ph[c], tol=1e-6)
        h.eq(getattr(s, 'vm_%s_pu' % ph[c]).values, A([[(c + 1) + x for x in r] for r in ep]), 'voltage magnitude of phase %s' % ph[c], tol=1e-6)
        h.eq(getattr(s, 'va_%s_degree' % ph[c]).values, A([[(c + 2) * x for x in r] for r in eq]), 'voltage angle of phase %s' % ph[c], tol=1e-6)


def cases(tier):
    th = tier == 'thorough'
    r = []
    for k, (ids, kinds) in enumerate([([1, 2], 'pl'), ([7, 3], 'lp'), ([12, 5, 8], 'lnp'), ([2, 0, 1], 'pll')] + ([([40, 10, 30, 20], 'llnp')] if th else [])):
        for T in (1, 2, 3) if th else (1, 2):
            r.append(('one-%d-%d' % (k, T), sim1, dict(ids=ids, kinds=kinds, T=T)))
    for k, (ids, kinds) in enumerate([([1, 2], 'pa'), ([7, 3], 'ap'), ([12, 5, 8], 'alp'), ([2, 0, 1], 'paa'), ([3, 10, 9], 'paa')] + ([([40, 10, 30, 20], 'lapa')] if th else [])):
        for T in (1, 2, 3) if th else (1, 2):
            for a in (True, False):
                r.append(('three-%d-%d-%s' % (k, T, a), sim3, dict(ids=ids, kinds=kinds, T=T, asym=a)))
    for T in (1, 2):
        r.append(('one-default-%d' % T, sim1, dict(ids=[10, 9, 2], kinds='plp', T=T, default=True)))
        r.append(('three-default-%d' % T, sim3, dict(ids=[10, 9, 2], kinds='pla', T=T, asym=True, default=True)))
    return r
