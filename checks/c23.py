"""C23: load profiles: Gaussian loads around the nominal ones, and households drawn until the nominal power is reached."""
import itertools
from engine import ppmodel
from engine.harness import match_draws
LP = 'src.simulation.load_profile'
BOUNDS = ('1-2 loads, 1-2 (thorough 3) samples, 2-3 households, up to 2 households per load (thorough 3), 1-2 selected intervals, arbitrary '
          'non-negative nominal powers, household profiles of any sign and random draws')
OUTSIDE = 'the distribution of the random draws; reading of files by numpy and pandas; negative nominal powers (rejected by numpy)'
ASSUMPTIONS = ('numpy draws every index and every normal value independently',)


def gauss(h, n, T, three):
    m = h.mod(LP)
    names = ['pa', 'qa', 'pb', 'qb', 'pc', 'qc'] if three else ['pa', 'qa']
    ref = {k: h.real(k, (n,), lo=0, hi=5) for k in names}
    keep = {k: v.copy() for k, v in ref.items()}
    sd = h.pyfloat('sd', lo=0, hi=1)
    r = m.generate_gaussian_load(sd, T, *[ref[k] for k in names])
    order = ['pa', 'pb', 'pc', 'qa', 'qb', 'qc'] if three else names
    h.check(len(r) == len(order), 'powers per phase')
    for a in r:
        h.check(h.np.shape(a) == (T, n), 'one row per sample, one column per load')
    match_draws(h, h.np.vstack(tuple(r)), 1, lambda i, x: ref[order[i[0] // T]][i[1]] * (1 + sd * x), 'nominal power times one plus its deviation')
    for k in names:
        h.eq(ref[k], keep[k], 'nominal powers are not modified')


def columns(h, got, prof, mean, ref, used, most, label):
    """the column is the sum of the profiles of round(ref / mean) households of its own draws"""
    np = h.np
    T, H = prof.shape
    if h.symbolic:
        from engine import terms as tm
        from engine.npf import RNG
        from engine.sym import Sym, lift
        fv = tm.free_vars([lift(g).re for g in got])
        own = [n for n in dict.fromkeys(RNG.draws) if n in fv]
        val = lambda n: Sym(tm.var(n, 'Int'), tm.ZERO, 'i')

        def pick(t, n):
            r = prof[t, H - 1]
            for j in range(H - 2, -1, -1):
                r = np.where(val(n) == j, prof[t, j], r)
            return r
    else:
        names = [n for n in h.used if n.startswith('ri[') and n not in used]
        pick = lambda t, n: prof[t, int(h.used[n])]
        own = None
        for k in range(most + 2):
            for c in itertools.combinations(names, k):
                s = [sum(pick(t, n) for n in c) for t in range(T)]
                if all(abs(s[t] - got[t]) < 1e-9 * (1 + abs(s[t])) for t in range(T)) and abs(ref - k * mean) <= mean * (0.5 + 1e-9):
                    own = c
                    break
            if own is not None:
                break
        if own is None:
            h.check(False, label + ': sum of households drawn for this load')
            return
    h.check(not set(own) & used, label + ': households of its own')
    used |= set(own)
    h.eq(np.array(list(got)), np.array([sum([pick(t, n) for n in own], 0.0) for t in range(T)]), label + ': sum of households drawn for this load')
    h.le(ref, (len(own) + 0.5) * mean, label + ': enough households for the nominal power')
    h.le((len(own) - 0.5) * mean, ref, label + ': no more households than the nominal power')


def house(h, kind, n, T, H, head, length, rows, three, most, longer=0, QH=None):
    np = h.np
    m = h.mod(LP)
    many = isinstance(length, (list, tuple))
    if many:
        # which rows are read: a second household in proportion to the first
        P, Q = [h.real(k, (rows, 1), lo=1, hi=1000) @ np.array([[1.0, 2.0]]) for k in 'PQ']
    else:
        P, Q = h.real('P', (rows, H), lo=-1000, hi=1000), h.real('Q', (rows + longer, QH or H), lo=-1000, hi=1000)
    # something is consumed: the mean percentiles are not zero
    for X in (P, Q):
        for t in range(X.shape[0]):
            h.assume((X[t, 0] >= 1) | (X[t, 0] <= -1))
    d = h.scratch()
    length = list(length) if many else [length] * len(head)
    take = [t for s, l in zip(head, length) for t in range(s, s + l)]
    sel = lambda X: np.array([[X[t, j] / 1e6 for j in range(X.shape[1])] for t in take])
    mp, mq = [np.mean(np.percentile(np.abs(sel(X)), 90, axis=0)) for X in (P, Q)]
    names = ['pa', 'qa', 'pb', 'qb', 'pc', 'qc'] if three else ['pa', 'qa']
    ref = {}
    for k in names:
        v = []
        for i in range(n):
            # nominal powers of a number of households, more or less a part of one
            f = h.real('%s%d' % (k, i), lo=-0.46875, hi=0.46875)
            c = h.choice('n%s%d' % (k, i), list(range(most + 1)))
            if c == 0:
                h.assume(f >= 0)
            f = (c + f) * (mp if k[0] == 'p' else mq)
            v.append(f)
        ref[k] = np.array(v)
    if kind == 'numpy':
        fp, fq = d + '/p.npy', d + '/q.npy'
        np.save(fp, P)
        np.save(fq, Q)
        r = m.load_profile_from_numpy(fp, fq, np.array(head), np.array(length), *[ref[k] for k in names])
    else:
        fp, fq = d + '/p.csv', d + '/q.csv'
        if h.symbolic:
            ppmodel.RAW.update({fp: (P, ';'), fq: (Q, ';')})
        else:
            for f, X in ((fp, P), (fq, Q)):
                with open(f, 'w') as o:
                    for t in range(rows):
                        o.write(';'.join(repr(float(x)) for x in X[t]) + '\n')
        r = m.load_profile_from_csv(fp, fq, np.array(head), np.array([rows - l - s for s, l in zip(head, length)]), *[ref[k] for k in names])
    order = ['pa', 'pb', 'pc', 'qa', 'qb', 'qc'] if three else names
    h.check(len(r) == len(order), 'powers per phase')
    used = set()
    sp, sq = sel(P), sel(Q)
    for k, a in zip(order, r):
        h.check(np.shape(a) == (len(take), n), 'one row per selected row, one column per load')
        for i in range(n):
            columns(h, [a[t, i] for t in range(len(take))], sp if k[0] == 'p' else sq, mp if k[0] == 'p' else mq, ref[k][i], used, most, k + str(i))


def cases(tier):
    th = tier == 'thorough'
    r = []
    for n in (1, 2, 3) if th else (1, 2):
        for T in (1, 2, 3) if th else (1, 2):
            for three in (False, True):
                r.append(('gauss-%d-%d-%s' % (n, T, three), gauss, dict(n=n, T=T, three=three)))
    for kind in ('numpy', 'csv'):
        L = [(1, 2, [0], 1, 1, False, 2), (2, 2, [1], 1, 2, False, 1), (1, 2, [0], 2, 3, False, 1), (1, 2, [2, 0], 1, 3, False, 1), (1, 2, [1, 0], [1, 2], 2, False, 1), (1, 2, [0], 1, 1, True, 1)]
        if kind == 'csv':
            # selections that end at rows further and further down
            L += [(1, 2, [0, 1], [1, 2], 3, False, 1)]
        else:
            # a longer file of reactive powers with more households
            r.append(('numpy-longer', house, dict(kind=kind, n=1, T=1, H=2, head=[1], length=1, rows=2, three=False, most=1, longer=2, QH=3)))
        if th:
            L += [(1, 3, [0], 1, 1, False, 3), (2, 3, [0, 2], 1, 4, False, 1), (1, 2, [1], 2, 4, True, 1)]
        for n, H, head, length, rows, three, most in L:
            ls = length if isinstance(length, list) else [length] * len(head)
            r.append(('%s-%d-%d-%s-%s-%d-%s' % (kind, n, H, ''.join(map(str, head)), ''.join(map(str, ls)), rows, three), house,
                      dict(kind=kind, n=n, T=sum(ls), H=H, head=head, length=length, rows=rows, three=three, most=most)))
    return r
