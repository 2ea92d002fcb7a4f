"""C30: the identification command selects the phases asked for, scales the deviations and passes the results on."""
from checks.c24 import dirs, same
from checks.c29 import stand
S, AM = 'identify_network', 'src.models.abstract_models'
I1, I3 = 'src.identification.run', 'src.identification.run3ph'
BOUNDS = ('2-6 saved columns with any listed phases or sequences, 1-2 samples, 1-2 logged iterations before and after continuing; every voltage, current, admittance, rating, '
          'deviation, block length and estimate; every combination of the options')
OUTSIDE = 'the identification steps themselves (C27, C28): stand-ins supply arbitrary estimates; parsing of the options (click)'
ASSUMPTIONS = ('numpy restores saved arrays unchanged', 'click passes options on as documented')


def saved(h, T, ids):
    np = h.np
    n = len(ids)
    d = dict(v=h.cplx('v', (T, n)), i=h.cplx('i', (T, n)), w=h.cplx('w', (T, n)), j=h.cplx('j', (T, n)), y=h.cplx('y', (n, n)),
             p=h.real('p', (n,), lo=0), f=h.real('f', lo=1), h=np.array(ids))
    np.savez(path(h, 'net'), **{k: (x.copy() if hasattr(x, 'copy') else x) for k, x in d.items()})
    return d


def path(h, name):
    return h.mod('conf.conf').DATA_DIR / ('simulations_output/%s.npz' % name)


def run(h, T, ids, phases, seq, lap, weighted, unsync, std, bay, exact, cont, unc, iters):
    np = h.np
    dirs(h)
    three = phases in ('012', '123')
    m = h.mod(I3 if three else I1)
    conf, am = h.mod('conf.simulation'), h.mod(AM)
    sd = {}
    for c in ('voltage', 'current'):
        for k in ('magnitude', 'phase'):
            sd[c, k] = h.pyfloat('%s_%s' % (c, k), lo=0)
            setattr(conf, '%s_%s_sd' % (c, k), sd[c, k])
    d = saved(h, T, ids)
    g = list(range(len(ids))) if three else [k for k, s in enumerate(ids) if s == int(phases)]
    k = len(g)
    log = []
    est = [h.cplx('e%d' % j, (k, k)) for j in range(4)]
    its = [[am.IterationStatus(j, h.cplx('%s%d' % (c, j), (k, k)), h.pyfloat('t%s%d' % (c, j))) for j in range(n)] for c, n in (('new', 2), ('old', 3 if cont else 0))]
    old = h.cplx('old', (k, k))
    box = np.empty(len(its[1]), dtype=object)
    for j, x in enumerate(its[1]):
        box[j] = x
    if cont:
        np.savez(path(h, 'bayesian_results_net'), y=old.copy(), i=box)
    stand(h, m, 'standard_methods', lambda a: tuple(e.copy() for e in est[:3]), log)
    stand(h, m, 'bayesian_eiv', lambda a: (est[3].copy(), list(its[0])), log)
    fims = [tuple(h.real('%s%d' % (c, j), (2, 2)) for c in ('fim', 'cov')) + (h.pyfloat('dev%d' % j),) for j in range(2)]
    stand(h, m, 'eiv_fim', lambda a: fims[sum(c[0] == 'eiv_fim' for c in log) - 1], log)
    args = ['-n', 'net', '-p', phases, '-i', str(iters)]
    args += [f for f, on in (('-q', seq), ('-l', lap), ('-w', weighted), ('-r', unsync), ('-s', std), ('-b', bay), ('-e', exact), ('-c', cont), ('-u', unc)) if on]
    h.mod(S).identify.main(args, standalone_mode=False)
    V, I, W, J = [d[c][:, g] for c in 'viwj']
    Y, R = d['y'][g, :][:, g], d['p'][g]
    names = [c[0] for c in log]
    a, b = log[0][1], log[1][1]
    both = not std and not bay
    h.check(names[:2] == ['standard_methods', 'bayesian_eiv'], 'each step is run once, in order')
    # least squares and lasso
    if std or both:
        h.eq(a['voltage'], V, 'voltages of the phases asked for')
        h.eq(a['current'], I, 'currents of the phases asked for')
    else:
        h.check(a['voltage'] is None or a['current'] is None, 'standard estimates are read back')
    h.check(bool(a['laplacian']) == lap and a['max_iterations'] == iters, 'options of the standard methods')
    if phases == '012':
        h.check([int(x) for x in a['phases_ids']] == list(ids), 'sequences are separated')
    else:
        h.check(a['phases_ids'] is None, 'phases are not separated')
    # errors in variables
    h.eq(b['voltage'], V, 'voltages of the phases asked for, weighted')
    h.eq(b['current'], I, 'currents of the phases asked for, weighted')
    q = 1 / np.sqrt(d['f'])
    for c in ('voltage', 'current'):
        h.eq(b[c + '_sd_polar'], (sd[c, 'magnitude'] + 1j * sd[c, 'phase']) * q, 'deviations of averaged ' + c + 's')
    h.eq(b['pmu_ratings'], R, 'ratings of the phases asked for')
    h.eq(b['y_init'], old if cont else (est[1] + est[1].T) / 2, 'starts from the previous estimate' if cont else 'starts from the symmetric part of total least squares')
    if exact and not lap:
        h.eq(b['y_exact'], Y, 'exact parameters of the phases asked for')
    else:
        h.check(b['y_exact'] is None, 'no exact parameters')
    h.check(bool(b['laplacian']) == lap and bool(b['weighted']) == weighted and bool(b['use_pmu_data']) == (not unsync), 'options of the weighted identification')
    h.check(b['max_iterations'] == (iters if bay or both else 0), 'no iterations when reading back')
    if three:
        h.check([int(x) for x in b['phases_ids']] == list(ids), 'sequences or phases of the columns')
    # reference
    D = np.load(path(h, 'reference_results_net'))
    h.eq(D['y'], Y, 'reference admittances of the phases asked for')
    h.check(str(D['p']) == phases and bool(D['l']) == lap, 'reference options')
    # continued
    if cont:
        D = np.load(path(h, 'bayesian_results_net'), allow_pickle=True)
        h.eq(D['y'], est[3], 'saved estimate')
        all_ = its[1] + its[0]
        h.check(len(D['i']) == len(all_), 'all iterations are saved')
        for x, y in zip(D['i'], all_):
            h.eq(x.fitted_parameters, y.fitted_parameters, 'iterations in order')
            h.eq(x.target_function, y.target_function, 'costs of the iterations in order')
    # uncertainty
    if not unc or unsync or three:
        h.check(len(log) == 2, 'no uncertainty analysis')
        return
    h.check(names[2:] == ['eiv_fim'] * 2, 'uncertainty of the exact and of the estimated parameters')
    for j, (v, i, y) in enumerate(((W, J, Y), (V, I, est[3]))):
        f = log[2 + j][1]
        lab = ('actual', 'estimated')[j]
        h.eq(f['voltage'], v, lab + ' voltages')
        h.eq(f['current'], i, lab + ' currents')
        h.eq(f['y_mat'], y, lab + ' parameters')
        for c in ('voltage', 'current'):
            h.eq(f[c + '_sd_polar'], (sd[c, 'magnitude'] + 1j * sd[c, 'phase']) * q, 'deviations of averaged ' + c + 's, ' + lab)
        h.eq(f['pmu_ratings'], R, lab + ' ratings')
        h.check(bool(f['laplacian']) == lap, lab + ' Laplacian')
    D = np.load(path(h, 'uncertainty_results_net'))
    h.eq(D['e'], fims[0][1], 'covariance at the actual parameters')
    h.eq(D['b'], fims[1][1], 'covariance at the estimated parameters')


def refused(h, ids, phases, seq, exc):
    """phases that cannot be identified or of which no data is available"""
    dirs(h)
    log = []
    saved(h, 1, ids)
    for m in (h.mod(I1), h.mod(I3)):
        for f in ('standard_methods', 'bayesian_eiv'):
            stand(h, m, f, lambda a: (h.np.zeros((1, 1)),) * 3, log)
    h.raises({'N': NotImplementedError, 'I': IndexError}[exc], lambda: h.mod(S).identify.main(['-n', 'net', '-p', phases] + (['-q'] if seq else []), standalone_mode=False),
             'refused')
    h.check(not log, 'nothing is identified')


def cases(tier):
    th = tier == 'thorough'
    r = []
    base = dict(T=2, ids=[1, 1], phases='1', seq=False, lap=False, weighted=False, unsync=False, std=False, bay=False, exact=False, cont=False, unc=False, iters=9)

    def add(name, **k):
        r.append((name, run, dict(base, **k)))
    three = dict(T=1, ids=[1, 2, 3, 1, 2, 3])
    sq = dict(T=1, ids=[0, 1, 2, 0, 1, 2], seq=True)
    part = dict(T=1, ids=[3, 1, 1, 2, 3])
    j = 0
    for nm, b in (('one', {}), ('phase1', dict(three)), ('phase3', dict(three, phases='3')), ('part2', dict(part, phases='2')), ('part3', dict(part, phases='3')),
                  ('seq0', dict(sq, phases='0')), ('seq1', dict(sq)), ('seq2', dict(sq, phases='2')), ('all012', dict(sq, phases='012')),
                  ('all123', dict(three, phases='123'))):
        for lap in (False, True):
            for std, bay in ((0, 0), (1, 0), (0, 1), (1, 1)):
                if not th and (std, bay) != ((0, 0), (1, 0), (0, 1), (1, 1))[j % 4] and nm != 'one':
                    continue
                for cont in (False, True):
                    if not th and cont != bool(j % 3 == 1) and nm != 'one':
                        continue
                    j += 1
                    add('%s-%s-%d%d-%s' % (nm, lap, std, bay, cont), **dict(b, lap=lap, std=bool(std), bay=bool(bay), cont=cont, weighted=bool(j % 2), exact=bool(j % 3),
                                                                         unsync=bool(j % 5 == 0), unc=bool(j % 4)))
            j += 1
    for ids, phases, seq, exc in (([1, 2, 3], '12', False, 'N'), ([1, 2, 3], '0', False, 'N'), ([1, 2, 3], '012', False, 'N'), ([0, 1, 2], '3', True, 'N'),
                                  ([0, 1, 2], '123', True, 'N'), ([0, 1, 2], '01', True, 'N'), ([1, 2, 1], '3', False, 'I'), ([1, 1], '2', False, 'I'), ([0, 1], '2', True, 'I')):
        r.append(('refused-%s-%s-%s' % (''.join(map(str, ids)), phases, seq), refused, dict(ids=ids, phases=phases, seq=seq, exc=exc)))
    return r
