"""C22: a node is passive in a phase exactly when it is no external grid connection and has no power in that phase."""
from engine import ppmodel  # noqa: F401
NW, N3, LP = 'src.simulation.network', 'src.simulation.network_3ph', 'src.simulation.load_profile'
BOUNDS = ('2-3 buses (thorough 4) in any listed order, arbitrary (also zero or negative) powers, up to two loads per bus, symmetric and per phase, '
          'removed and added loads')
OUTSIDE = 'generators and static generators (the simulator creates none)'
ASSUMPTIONS = ()


def power(h, n, free):
    """zero, or any value"""
    if not free:
        return 0.0
    return h.pyfloat(n, lo=-5, hi=5)


def build(h, ids, kinds, three, mix):
    B = h.mod(LP).BusData
    typ = {'t': dict(r_ohm_per_km=0.1, x_ohm_per_km=0.1, c_nf_per_km=0., max_i_ka=1., r0_ohm_per_km=0.3, x0_ohm_per_km=0.3, c0_nf_per_km=0.)}
    bs, act = [], {}
    for k, (i, t) in enumerate(zip(ids, kinds)):
        if t == 'a':
            on = [[(mix >> (c + k)) % 2, (mix >> (c + k + 1)) % 2] for c in range(3)]
            p, q = [power(h, 'p%d%d' % (i, c), on[c][0]) for c in range(3)], [power(h, 'q%d%d' % (i, c), on[c][1]) for c in range(3)]
            act[i] = [[(p[c], q[c])] for c in range(3)]
            bs.append(B(i, 1, h.np.array(p), h.np.array(q)))
        else:
            p, q = power(h, 'p%d' % i, (mix >> k) % 3), power(h, 'q%d' % i, (mix + k) % 2)
            bs.append(B(i, dict(l=1, p=3, n=0, d=1)[t], p, q))
            act[i] = [[(p, q)] if t in 'ld' else [] for c in range(3)]
    net = h.mod(N3).NetData3P(typ, bs) if three else h.mod(NW).NetData(bs)
    pp = None
    for i, t in zip(ids, kinds):
        if t == 'd':
            # a second load at the same bus
            import pandapower as pp
            p, q = power(h, 'pp%d' % i, True), power(h, 'qq%d' % i, mix % 2)
            pp.create_load(net, i, p, q)
            for c in range(3):
                act[i][c].append((p, q))
    return net, act


def passive(h, ids, kinds, three, mix, drop):
    net, act = build(h, ids, kinds, three, mix)
    ids, kinds = list(ids), list(kinds)
    if drop is not None:
        net.remove_bus(ids[drop])
        del ids[drop], kinds[drop]
    r = net.give_passive_nodes()
    h.check(len(r) == 3, 'one list per phase')
    for c in range(3):
        got = [int(x) for x in r[c]]
        h.check(got == [i for i in ids if i in got], 'in the order of the buses, at most once')
        for i, t in zip(ids, kinds):
            if t == 'p':
                h.check(i not in got, 'an external grid is not passive')
            elif i in got:
                for p, q in act[i][c]:
                    h.eq(p, 0, 'no active power in phase %d of a passive node' % c)
                    h.eq(q, 0, 'no reactive power in phase %d of a passive node' % c)
            else:
                s = False
                for p, q in act[i][c]:
                    s = s | (p != 0) | (q != 0)
                h.check(s, 'a node without power in phase %d is passive' % c)


def cases(tier):
    th = tier == 'thorough'
    r = []
    for k, (ids, kinds) in enumerate([([1, 2], 'pl'), ([7, 3], 'nl'), ([12, 5, 8], 'dpn'), ([2, 0, 1], 'pld'), ([1, 2, 0], 'llp')] + ([([40, 10, 30, 20], 'ldnp')] if th else [])):
        for mix in (1, 2, 4) if th else (1, 2):
            for drop in [None] + ([0] if kinds[0] != 'p' else [1]):
                r.append(('one-%d-%d-%s' % (k, mix, drop), passive, dict(ids=ids, kinds=kinds, three=False, mix=mix, drop=drop)))
    for k, (ids, kinds) in enumerate([([1, 2], 'pa'), ([7, 3], 'la'), ([3, 1, 2], 'apl'), ([0, 2, 1], 'nap')] + ([([4, 1, 3, 2], 'pdaa')] if th else [])):
        for mix in (1, 2, 4, 5) if th else (2, 5):
            for drop in (None, 0) if kinds[0] != 'p' else (None,):
                r.append(('three-%d-%d-%s' % (k, mix, drop), passive, dict(ids=ids, kinds=kinds, three=True, mix=mix, drop=drop)))
    return r
