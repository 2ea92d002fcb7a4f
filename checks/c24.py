"""C24: the simulation steps pass the right data on and read back what they saved."""
import os
from engine import ppmodel  # noqa: F401
from engine.harness import match_draws
LP, LI, NT, N3 = 'src.simulation.load_profile', 'src.simulation.lines', 'src.simulation.net_templates', 'src.simulation.net_templates_3ph'
R1, R3 = 'src.simulation.run', 'src.simulation.run3ph'
BOUNDS = ('2-3 buses in any listed order, profiles of 1-2 rows (Gaussian ones: 1 day of minutes), arbitrary profiles, nominal powers, constancy, deviations, '
          'voltages and currents; any listed choice of constant nodes')
OUTSIDE = 'the profiles themselves (see C23) and the time series (see C21): stand-ins supply arbitrary ones; numpy file formats'
ASSUMPTIONS = ('numpy restores saved arrays unchanged',)
TYP = {'t': dict(r_ohm_per_km=0.1, x_ohm_per_km=0.1, c_nf_per_km=0., max_i_ka=1., r0_ohm_per_km=0.3, x0_ohm_per_km=0.3, c0_nf_per_km=0.)}


def dirs(h):
    for d in ('simulations_output/plot_data', 'sim'):
        os.makedirs(os.path.join(h.scratch(), d), exist_ok=True)


def network(h, ids, kinds, three, name='x', extra=()):
    B, L = h.mod(LP).BusData, h.mod(LI).LineData
    bs = []
    for i, t in zip(ids, kinds):
        if t == 'a':
            p, q = [[h.pyfloat('%s%d%s' % (k, i, c), lo=0, hi=0.02) for c in 'abc'] for k in 'pq']
            bs.append(B(i, 1, tuple(p), tuple(q), kv=4.16))
        elif t == 'z':
            bs.append(B(i, 1, 0., 0., kv=4.16))
        else:
            bs.append(B(i, dict(p=3, l=1, n=0)[t], h.pyfloat('p%d' % i, lo=0, hi=0.02), h.pyfloat('q%d' % i, lo=0, hi=0.02), kv=4.16))
    ls = [L(a, b, 1.0, 't', 0.1, 0.1) for a, b in zip(ids, ids[1:])]
    m = h.mod(R3 if three else R1)
    t = h.mod(N3 if three else NT)
    setattr(t, name + '_bus', bs)
    setattr(t, name + '_net', ls)
    if three:
        t.ieee123_types = TYP
        m.ieee123_types = TYP
    net, b, l = m.make_net(name)
    h.check(b is bs and l is ls, 'the descriptions of the network are returned')
    h.check(net.name == name, 'the network has the name of its template')
    h.check(list(net.bus.index) == list(ids) and len(net.line) == len(ls), 'the network of the template')
    # further loads, numbered independently of the buses
    import pandapower as pp
    for k, (i, t, num) in enumerate(extra):
        v = [h.pyfloat('e%d%d' % (k, c), lo=0, hi=0.02) for c in range(6)]
        if t == 'l':
            pp.create_load(net, i, v[0], v[1], index=num)
        else:
            pp.create_asymmetric_load(net, i, *v, index=num)
    return m, net, bs


def nominal(net, three):
    cols = [('load', 'p_mw'), ('load', 'q_mvar')]
    if three:
        cols += [('asymmetric_load', '%s_%s_%s' % (k, c, u)) for k, u in (('p', 'mw'), ('q', 'mvar')) for c in 'abc']
    return [([net[t][v][i] for i in net[t].index], list(net[t].bus.values)) for t, v in cols]


def same(h, a, b, label):
    h.check(len(a) == len(b), label + ': as many')
    for x, y in zip(a, b):
        h.check(h.np.shape(x) == h.np.shape(y), label + ': shape')
        h.eq(h.np.asarray(x), h.np.asarray(y), label)


def flat(r, three):
    return [r[0], r[1]] + (list(r[2]) if three else [])


def profiles(h, ids, kinds, three, T, const, weeks, days=2, extra=()):
    """household profiles: nominal powers, intervals and files are passed on; constant nodes are blended with their nominal power"""
    np = h.np
    dirs(h)
    calls, kinds_of = [], []

    def stand_in(active_file, reactive_file, skip_header, length, load_p_reference, load_q_reference,
                 load_p_rb=None, load_q_rb=None, load_p_rc=None, load_q_rc=None, verbose=False):
        n = len(load_p_reference)
        k = len(calls)
        full = load_p_rb is not None
        r = tuple(h.real('w%d%d' % (k, j), (T, n)) for j in range(6 if full else 2))
        calls.append((active_file, reactive_file, skip_header, length, [load_p_reference, load_q_reference] if not full else
                      [load_p_reference, load_p_rb, load_p_rc, load_q_reference, load_q_rb, load_q_rc], [x.copy() for x in r]))
        return r
    h.mod(LP).load_profile_from_numpy = stand_in
    m, net, bs = network(h, ids, kinds, three, extra=extra)
    m.load_profile_from_numpy = stand_in
    a = h.pyfloat('constancy', lo=0, hi=1)
    h.mod('conf.simulation').load_constantness = a
    sel = np.array(weeks)
    r = m.generate_loads(net, ('active', 'reactive', sel, days, None if const is None else [ids[c] for c in const]), verbose=False)
    nom = nominal(net, three)
    got = flat(r, three)
    h.check(len(got) == len(nom), 'one matrix per quantity')
    raw = []
    for c in sorted(calls, key=lambda c: len(c[4])):
        h.check(c[0] == 'active' and c[1] == 'reactive', 'files of active and of reactive power')
        h.eq(np.array(c[2]), np.array([w * 7 * 1440 for w in weeks]), 'the selected weeks')
        part = [int(x) for x in np.array(c[3]) * np.ones(len(weeks))]
        h.check(sum(part) == days * 1440, 'as many rows of the profiles as samples')
        h.check(max(part) - min(part) <= 1, 'the samples are spread evenly over the weeks')
        raw += list(zip(c[4], c[5]))
    # every quantity gets the profile generated for its nominal powers
    order = raw
    h.check(len(raw) == len(nom), 'profiles for every quantity')
    for (ref, w), (n, bus), g in zip(order, nom, got):
        h.eq(np.array(list(ref)), np.array(list(n)), 'profiles follow the nominal powers')
        e = [[(1 - a) * w[t, k] + a * n[k] if const is not None and b in [ids[c] for c in const] else w[t, k] for k, b in enumerate(bus)] for t in range(T)]
        if len(n):
            h.eq(g, np.array(e), 'constant nodes are blended with their nominal power, others follow their profile')
        h.check(np.shape(g) == (T, len(n)), 'one row per sample, one column per load')
    h.eq(r[-1], np.arange(days * 1440) * 60, 'one sample per minute, in seconds')
    same(h, [np.array(list(x)) for x, _ in nominal(net, three)], [np.array(list(x)) for x, _ in nom], 'nominal powers are kept')
    k = len(calls)
    r2 = m.generate_loads(net, None, verbose=False)
    h.check(len(calls) == k, 'saved loads are not generated again')
    same(h, flat(r2, three) + [r2[-1]], got + [r[-1]], 'loads read back')


def gaussian(h, ids, kinds, three, const, extra=()):
    """a day of random loads around the nominal powers"""
    np = h.np
    dirs(h)
    m, net, bs = network(h, ids, kinds, three, extra=extra)
    a, sd = h.pyfloat('constancy', lo=0, hi=1), h.pyfloat('sd', lo=0, hi=1)
    h.mod('conf.simulation').load_constantness = a
    # a short day: the generator is the real one, asked for fewer samples
    lp = h.mod(LP)
    real = lp.generate_gaussian_load
    asked = []

    def short(load_sd, n_samples, *args, **kw):
        asked.append(n_samples)
        return real(load_sd, 2, *args, **kw)
    m.generate_gaussian_load = short
    lp.generate_gaussian_load = short
    r = m.generate_loads(net, (None, None, sd, 1, None if const is None else [ids[c] for c in const]), verbose=False)
    h.check(set(asked) == {1440}, 'one sample per minute of a day')
    h.eq(r[-1], np.arange(1440) * 60, 'one sample per minute, in seconds')
    nom = nominal(net, three)
    got = flat(r, three)
    h.check(len(got) == len(nom), 'one matrix per quantity')
    for (n, bus), g in zip(nom, got):
        h.check(np.shape(g) == (2, len(n)), 'one row per sample, one column per load')
    w = np.hstack(tuple(np.asarray(g) for g in got))
    n, bus = [x for v in nom for x in v[0]], [x for v in nom for x in v[1]]
    c = [const is not None and b in [ids[k] for k in const] for b in bus]
    # loads without nominal power stay without power
    use = [k for k in range(len(n)) if not (isinstance(n[k], (int, float)) and n[k] == 0)]
    for k in range(len(n)):
        if k not in use:
            h.eq(w[:, k], np.zeros(2), 'loads without nominal power')
    match_draws(h, w[:, use], 1, lambda i, x: (1 - a) * n[use[i[1]]] * (1 + sd * x) + a * n[use[i[1]]] if c[use[i[1]]] else n[use[i[1]]] * (1 + sd * x),
                'nominal power times one plus a deviation of its own')
    r2 = m.generate_loads(net, None, verbose=False)
    same(h, flat(r2, three) + [r2[-1]], got + [r[-1]], 'loads read back')
    r3 = m.generate_loads(net, (None, None, sd, 1, None if const is None else [ids[k] for k in const]), verbose=False)
    same(h, flat(r3, three), got, 'the same loads are generated again')


def simulation(h, ids, kinds, three, T):
    """voltages and currents of the time series, with the admittance matrix, also when read back"""
    np = h.np
    dirs(h)
    m, net, bs = network(h, ids, kinds, three)
    n = len(ids) * (3 if three else 1)
    V, I, Y = h.cplx('v', (T, n)), h.cplx('i', (T, n)), h.cplx('y', (n, n))
    seen = []

    class Net(object):
        name = net.name

        def make_y_bus(self):
            return Y.copy()

        def run(self, *a, **k):
            seen.append((a, k))
            return self

        def get_current_and_voltage(self):
            return V.copy(), I.copy()
    s = Net()
    args = [h.real('p', (T, 2)), h.real('q', (T, 2))] + ([[h.real('a%d' % k, (T, 1)) for k in range(6)]] if three else [])
    r = m.simulate_net(s, *args, verbose=False)
    h.check(len(seen) == 1, 'the network is simulated once')
    import inspect
    c = h.mod('src.simulation.simulation_3ph' if three else 'src.simulation.simulation')
    cls = c.SimulatedNet3P if three else c.SimulatedNet
    b = inspect.signature(cls.run).bind(None, *seen[0][0], **seen[0][1]).arguments
    for k, v in zip(('load_p', 'load_q', 'asym_load'), args):
        if k == 'asym_load':
            for x, y in zip(b[k], v):
                h.eq(x, y, 'profiles are passed on: ' + k)
        else:
            h.eq(b[k], v, 'profiles are passed on: ' + k)
    h.check(b.get('kwargs', {}).get('calculate_voltage_angles') is True, 'angles are calculated')
    same(h, r, [V, I, Y], 'voltages, currents, admittances')
    r2 = m.simulate_net(s, *([None] * len(args)), verbose=False)
    h.check(len(seen) == 1, 'saved results are not simulated again')
    same(h, r2, [V, I, Y], 'results read back')


def cases(tier):
    th = tier == 'thorough'
    r = []
    one = [([1, 2], 'pl'), ([7, 3], 'ln'), ([12, 5, 8], 'lpl')] + ([([2, 0, 1, 4], 'lnpl')] if th else [])
    three = [([1, 2], 'pa'), ([7, 3], 'al'), ([12, 5, 8], 'apl')] + ([([2, 0, 1, 4], 'alpa')] if th else [])
    for t, L in ((False, one), (True, three)):
        for k, (ids, kinds) in enumerate(L):
            for const in (None, [0], list(range(len(ids)))) if th else (None, [0], [1])[k % 3:][:2]:
                for T, weeks in ((1, [0]), (2, [12]), (2, [3, 1])) if th else ((2, [3, 1] if k % 2 else [2]),):
                    r.append(('profiles-%s%d-%d-%s-%s' % ('31'[t is False], k, T, const, weeks), profiles, dict(ids=ids, kinds=kinds, three=t, T=T, const=const, weeks=weeks)))
                r.append(('gaussian-%s%d-%s' % ('31'[t is False], k, const), gaussian, dict(ids=ids, kinds=kinds, three=t, const=const)))
            for T in (1, 2):
                r.append(('simulation-%s%d-%d' % ('31'[t is False], k, T), simulation, dict(ids=ids, kinds=kinds, three=t, T=T)))
    # as many days as weeks, more weeks than days, and lengths that are no whole number of minutes
    for days, weeks in ((3, [4, 2]), (3, [0, 1, 2, 3, 4]), (1, [8, 6, 4, 2, 0, 1, 3])) + (((7, [0, 1, 2, 3, 5]), (5, [2, 7, 1]), (12, list(range(11)))) if th else ()):
        for t in (False, True):
            r.append(('weeks-%s-%d-%d' % ('31'[t is False], days, len(weeks)), profiles, dict(ids=[7, 3], kinds='pa' if t else 'pl', three=t, T=1, const=None, weeks=weeks, days=days)))
    # several loads at a bus, whose numbers are those of other buses
    for t, k, e in ((False, 'pln', [(5, 'l', 8)]), (True, 'pan', [(5, 'a', 8), (8, 'a', 12), (12, 'l', 5)])):
        for c in ([1], [2], [0, 2]) if th else ([1], [2]):
            r.append(('numbers-%s-%s' % ('31'[t is False], c), profiles, dict(ids=[12, 5, 8], kinds=k, three=t, T=2, const=c, weeks=[1], extra=e)))
            r.append(('gaussnum-%s-%s' % ('31'[t is False], c), gaussian, dict(ids=[12, 5, 8], kinds=k, three=t, const=c, extra=e)))
    return r
