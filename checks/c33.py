"""C33: built-in networks are connected and agree with each other."""
from engine import ppmodel  # noqa: F401
RU, R3, NT, N3 = 'src.simulation.run', 'src.simulation.run3ph', 'src.simulation.net_templates', 'src.simulation.net_templates_3ph'
BOUNDS = ('every built-in network (10 to 56 buses, single-phase and three-phase), every set of buses cut off, every voltage and weight vector, every phase current')
OUTSIDE = 'the figures themselves where no other network or documented impedance gives them; the power flow of the networks; the line type of the CIGRE feeder'
ASSUMPTIONS = ()
FOOT = 0.3 / 1000  # km, as in the documentation of the templates
SINGLE = ['bolognani21', 'bolognani33', 'bolognani56', 'cigre_mv_feeder1', 'ieee_33']
THREE = ['cigre_mv_feeder3', 'ieee123center', 'test_3phase']


def build(h, name):
    return h.mod(R3 if name in THREE else RU).make_net(name)[0]


def lines(net):
    """(from, to, resistance, reactance, length) of the lines in service"""
    L = net.line
    col = lambda c: L[c].values.tolist()
    return [(f, t, r * l, x * l, l) for f, t, r, x, l, s in zip(*[col(c) for c in ('from_bus', 'to_bus', 'r_ohm_per_km', 'x_ohm_per_km', 'length_km', 'in_service')]) if s]


def loads(net):
    """powers of the loads per bus: single-phase, and per phase"""
    r = {b: [0.0] * 8 for b in net.bus.index}
    for t, cs, o in ((net.load, ['p_mw', 'q_mvar'], 0), (net.asymmetric_load, ['p_a_mw', 'p_b_mw', 'p_c_mw', 'q_a_mvar', 'q_b_mvar', 'q_c_mvar'], 2)):
        for i in t.index:
            for k, c in enumerate(cs):
                r[t.bus[i]][o + k] += t[c][i]
    return r


def connected(h, name):
    net = build(h, name)
    h.check(net.name == name, 'named')
    ids = list(net.bus.index)
    h.check(ids == list(range(1, len(ids) + 1)), 'buses numbered from one')
    kv = net.bus.vn_kv.values.tolist()
    h.check(all(v == kv[0] and v > 0 for v in kv), 'one voltage level')
    src = net.ext_grid.bus.values.tolist()
    h.check(len(src) == 1 and src[0] in ids, 'a single source')
    L = lines(net)
    for f, t, r, x, l in L:
        h.check(f in ids and t in ids and f != t, 'lines join two buses')
        h.check(l > 0 and r > 0 and x > 0, 'lines have a length and an impedance')
    # a quantity that is the same at both ends of every working line is that of the source everywhere
    s = dict(zip(ids, h.real('s', (len(ids),), lo=-1, hi=1)))
    for f, t, _, _, _ in L:
        h.assume(s[f] == s[t])
    h.eq(h.np.array([s[b] for b in ids]), h.np.array([s[src[0]] for b in ids]), 'every bus is reached from the source')
    again = build(h, name)
    h.check(lines(again) == L and loads(again) == loads(net), 'building again gives the same network')


def near(h, a, b, label, eps=1e-8):
    """equal but for the rounding of the figures"""
    for x, y in zip(h.np.ravel(a), h.np.ravel(b)):
        d = x - y
        for e in (d.real, d.imag):
            h.le(e, eps, label)
            h.le(-e, eps, label)


def currents(h, ids, L, v, weight=None):
    """currents from each bus into the lines"""
    z = {b: 0.0 for b in ids}
    for f, t, r, x, l in L:
        y = 1.0 / complex(r, x) if weight is None else weight(l)
        z[f] = z[f] + y * (v[f] - v[t])
        z[t] = z[t] - y * (v[f] - v[t])
    return h.np.array([z[b] for b in ids])


def volts(h, ids):
    v = h.cplx('v', (len(ids),), lo=-1, hi=1)
    return {b: v[k] for k, b in enumerate(ids)}


def weighted(h, w, a):
    return sum([w[k] * x for k, x in enumerate(a)], 0.0)


def part(h, name, of, mapping):
    net, full = build(h, name), build(h, of)
    m = dict(getattr(h.mod(NT), mapping))
    ids = list(net.bus.index)
    at = {b: m.get(b, b) for b in ids}
    h.check(len(set(at.values())) == len(ids) and all(b in list(full.bus.index) for b in at.values()), 'each bus stands for one of the full network')
    h.check([at[b] for b in net.ext_grid.bus.values] == list(full.ext_grid.bus.values), 'same source')
    h.eq(net.bus.vn_kv.values.tolist()[0], full.bus.vn_kv.values.tolist()[0], 'same voltage level')
    v = volts(h, ids)
    V = {at[b]: v[b] for b in ids}
    got = currents(h, ids, lines(net), v)
    want = currents(h, [at[b] for b in ids], [e for e in lines(full) if e[0] in V and e[1] in V], V)
    near(h, got, want, 'same currents for the same voltages')
    w = h.real('w', (len(ids),), lo=-1, hi=1)
    a, b = loads(net), loads(full)
    for k, q in enumerate(('active', 'reactive')):
        near(h, weighted(h, w, [a[i][k] for i in ids]), weighted(h, w, [b[at[i]][k] for i in ids]), q + ' loads of the buses')


def phases(h, name, of, scale, per_phase):
    net, full = build(h, name), build(h, of)
    ids = list(net.bus.index)
    h.check(ids == list(full.bus.index), 'same buses')
    h.check(list(net.ext_grid.bus.values) == list(full.ext_grid.bus.values), 'same source')
    h.eq(net.bus.vn_kv.values.tolist()[0], full.bus.vn_kv.values.tolist()[0], 'same voltage level')
    v = volts(h, ids)
    near(h, currents(h, ids, lines(net), v, lambda l: l), currents(h, ids, lines(full), v, lambda l: l * scale), 'same lines with the same lengths')
    w = h.real('w', (len(ids),), lo=-1, hi=1)
    a, b = loads(net), loads(full)
    for k, q in enumerate(('active', 'reactive')):
        one = weighted(h, w, [b[i][k] for i in ids])
        ph = [weighted(h, w, [a[i][2 + 3 * k + p] + a[i][k] / 3 for i in ids]) for p in range(3)]
        if per_phase:
            for p in range(3):
                near(h, ph[p], one, q + ' loads of every phase')
        else:
            near(h, ph[0] + ph[1] + ph[2], one, q + ' loads of the three phases together')


def types(h, name, own, mutual):
    t = h.mod(N3).ieee123_types[name]
    z = [complex(t['r0_ohm_per_km'], t['x0_ohm_per_km'])] + [complex(t['r_ohm_per_km'], t['x_ohm_per_km'])] * 2
    i = h.cplx('i', (3,), lo=-1, hi=1)
    # the drop of phase p: sum over sequences of z_s * (component s of the currents), rotated back
    w = complex(-0.5, 3 ** 0.5 / 2)
    rot = [[w ** (-(p * s)) for s in range(3)] for p in range(3)]
    comp = [sum([i[p] * rot[p][s].conjugate() for p in range(3)], 0.0) / 3 for s in range(3)]
    drop = [sum([z[s] * comp[s] * rot[p][s] for s in range(3)], 0.0) for p in range(3)]
    km = 0.3
    want = [own / km * i[p] + mutual / km * (i[(p + 1) % 3] + i[(p + 2) % 3]) for p in range(3)]
    near(h, h.np.array(drop), h.np.array(want), 'voltage drop of the documented self and mutual impedances')


def cases(tier):
    r = [('net-' + n, connected, dict(name=n)) for n in SINGLE + THREE]
    r += [('part-bolognani%d' % n, part, dict(name='bolognani%d' % n, of='bolognani56', mapping='bolognani_mapping%d' % n)) for n in (21, 33)]
    r += [('phases-ieee123center', phases, dict(name='ieee123center', of='bolognani56', scale=FOOT, per_phase=False)),
          ('phases-cigre', phases, dict(name='cigre_mv_feeder3', of='cigre_mv_feeder1', scale=1.0, per_phase=True))]
    r += [('type-' + n, types, dict(name=n, own=o, mutual=m)) for n, o, m in
          (('OG3', 0.087 + 0.20j, 0.029 + 0.08j), ('UG3', 0.29 + 0.14j, 0.095 + 0.05j), ('OG1', 0.25 + 0.25j, 0j))]
    return r
