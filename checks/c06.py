"""C06: error metrics."""
import itertools
EM = 'src.models.error_metrics'
BOUNDS = 'complex vectors up to length 5 and matrices up to 2x2, real ones up to 2x3 (quick); complex up to 6 entries, real up to 3x3 (thorough); every zero pattern of the true parameters'
OUTSIDE = 'larger sizes; an all-zero reference (the relative errors are undefined)'


def sq(x):
    return x.real * x.real + x.imag * x.imag


def metrics(h, shape, cx, pre=()):
    np, em = h.np, h.mod(EM)
    y = h.cplx('y', shape) if cx else h.real('y', shape)
    yh = h.cplx('yh', shape) if cx else h.real('yh', shape)
    yf, hf = list(y.ravel()), list(yh.ravel())
    # concrete zero pattern (forks); pre: the pattern of the first entries
    for e, z in zip(yf, pre):
        h.assume((e == 0) if z else (e != 0))
    nz = []
    for i, e in enumerate(yf):
        if bool(e == 0):
            continue
        nz.append(i)
    h.assume(len(nz) > 0)
    r = em.error_metrics(y, yh)
    f, m, rr, mp = r.fro_error, r.max_error, r.rrms_error, r.map_error
    d2 = [sq(a - b) for a, b in zip(yf, hf)]
    h.check(f >= 0, 'Frobenius error is non-negative')
    h.eq(f * f, sum(d2), 'Frobenius error squared is the sum of squared deviations')
    dev = [np.abs(a - b) for a, b in zip(yf, hf)]
    for e in dev:
        h.le(e, m, 'max error bounds every entry')
    hit = np.array([m == e if h.symbolic else abs(m - e) <= 1e-9 * (1e-9 + abs(e)) for e in dev])
    h.check(np.any(hit), 'max error is attained')
    h.check(m >= 0, 'max error is non-negative')
    n2 = sum([sq(a) for a in yf])
    h.eq(rr * rr * n2, 10000 * sum(d2), 'rrms error is the relative Frobenius error in percent')
    h.check(rr >= 0, 'rrms error is non-negative')
    h.eq(mp * mp * sum([sq(yf[i]) for i in nz]), 10000 * sum([d2[i] for i in nz]), 'map error only counts the true non-zeros')
    h.check(mp >= 0, 'map error is non-negative')
    h.check(mp <= rr + (0 if h.symbolic else 1e-9 * (1 + rr)), 'map error never exceeds rrms error')
    h.eq(em.fro_error(y, y), 0, 'no error against itself')
    h.eq(em.max_error(y, y), 0, 'no max error against itself')
    h.eq(em.fro_error(yh, y), f, 'symmetric')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for s in [(1,), (2,), (3,), (2, 1), (1, 2), (2, 2), (5,), (2, 3)] + ([(7,), (3, 3), (4, 2)] if th else []):
        for cx in (False, True):
            n = 'metrics-%s-%s' % ('x'.join(map(str, s)), 'c' if cx else 'r')
            size = 1
            for k in s:
                size *= k
            if cx and size > (6 if th else 5):
                continue
            for pre in itertools.product((False, True), repeat=max(0, size - 5 if th else size - 4)):
                r.append((n + ''.join('nz'[z] for z in pre), metrics, dict(shape=s, cx=cx, pre=pre)))
    return r
