"""Exact symbolic real terms and Boolean terms (hash-consed DAG, light normal form).

A real term T is one of
  const    Fraction
  var      free symbolic real (or integer) variable
  sum      const + sum_i coef_i * t_i           (coef_i Fraction, t_i non-const, non-sum)
  prod     prod_j base_j ** e_j                 (e_j Fraction != 0; base non-const, non-prod)
  fn       atom: exp1(m)=e^m, cosq/sinq(m), abs(x), log(x), rt(x)=x>=0 root base, ...
  ite      ite(B, a, b)

Products of sums are never expanded here: deciding that two different looking terms are equal is left
to the SMT solver (engine/smt.py).  Only associativity/commutativity, constant folding, collection of equal
monomials and cancellation x * x**-1 (with x != 0 recorded as a side condition) happen at construction.
"""
from fractions import Fraction
import math

_table = {}
_ids = [0]


class Unsupported(Exception):
    """The engine cannot encode an operation: the check is inconclusive, never a verdict."""


def simplest_rational(x):
    """Simplest rational that rounds to the double x (0.1 -> 1/10, 1/3 -> 1/3)."""
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite constant %r' % x)
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    f = Fraction(x)
    sign = -1 if f < 0 else 1
    f = abs(f)
    # continued fraction expansion until it rounds back to x
    p0, q0, p1, q1 = 0, 1, 1, 0
    n, d = f.numerator, f.denominator
    ax = abs(x)
    while True:
        a = n // d
        p0, q0, p1, q1 = p1, q1, a * p1 + p0, a * q1 + q0
        if p1 / q1 == ax:
            return Fraction(sign * p1, q1)
        n, d = d, n - a * d
        if d == 0:
            return sign * f


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return simplest_rational(x)
    if hasattr(x, 'dtype') and hasattr(x, 'item') and getattr(x, 'ndim', 1) == 0:
        return frac(x.item())
    raise Unsupported('not a rational constant: %r' % (x,))


class T(object):
    __slots__ = ('op', 'args', 'id', '_nd', '_vars')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        _ids[0] += 1
        self.id = _ids[0]
        self._nd = None
        self._vars = None

    def __repr__(self):
        return show(self)

    @property
    def is_const(self):
        return self.op == 'c'

    @property
    def value(self):
        return self.args


def _mk(op, args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T(op, args)
        _table[k] = t
    return t


_constcache = {}


def const(x):
    f = x if type(x) is Fraction else frac(x)
    t = _constcache.get(f)
    if t is None:
        t = T('c', f)
        _constcache[f] = t
    return t


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
F0 = Fraction(0)
F1 = Fraction(1)

VARS = {}      # name -> (T, sort)


def var(name, sort='Real'):
    if name in VARS:
        assert VARS[name][1] == sort
        return VARS[name][0]
    t = _mk('v', (name,))
    VARS[name] = (t, sort)
    return t


PI = var('$pi')


def reset():
    """Forget all the non-builtin variables (terms stay hash-consed)."""
    for k in list(VARS):
        if k != '$pi':
            del VARS[k]


# ------------------------------------------------------------------------------------------------ sums
def _lin(t):
    """t -> (const Fraction, [(term, coef)...])"""
    if t.op == 'c':
        return t.args, ()
    if t.op == '+':
        return t.args[0], t.args[1]
    return F0, ((t, F1),)


def _mksum(c, d):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk('+', (c, tuple(items)))


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'c' and b.op == 'c':
        return const(a.args + b.args)
    ca, la = _lin(a)
    cb, lb = _lin(b)
    d = dict(la)
    for t, k in lb:
        d[t] = d.get(t, F0) + k
    return _mksum(ca + cb, d)


def addn(ts):
    c = F0
    d = {}
    for a in ts:
        ca, la = _lin(a)
        c += ca
        for t, k in la:
            d[t] = d.get(t, F0) + k
    return _mksum(c, d)


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    if a.op == 'c':
        return const(a.args * k)
    c, l = _lin(a)
    return _mksum(c * k, {t: q * k for t, q in l})


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


# -------------------------------------------------------------------------------------------- products
def _mono(t):
    """t -> (coef, {base: exp})"""
    if t.op == 'c':
        return t.args, {}
    if t.op == '*':
        return F1, dict(t.args)
    if t.op == '+' and t.args[0] == 0 and len(t.args[1]) == 1:
        m, k = t.args[1][0]
        c, d = _mono(m)
        return c * k, d
    if t.op == '+':
        # pull out a leading coefficient so that k*(s) and s share a base
        k = t.args[1][0][1]
        if k != 1:
            return k, {_mksum(t.args[0] / k, {u: q / k for u, q in t.args[1]}): F1}
    return F1, {t: F1}


def _mkprod(c, d):
    """c * prod base**exp, with the local rewriting of special bases"""
    if c == 0:
        return ZERO
    out = {}
    extra = []
    for b, e in d.items():
        if e == 0:
            continue
        if b.op == 'fn':
            if b.args[0] == 'abs' and e.denominator == 1 and e.numerator % 2 == 0:
                extra.append((b.args[1], e))
                continue
            if b.args[0] == 'rt' and e.denominator == 1:
                extra.append((b.args[1], e))
                continue
            if b.args[0] == 'exp1' and e.denominator == 1 and b.args[1].op == 'fn' and b.args[1].args[0] == 'log':
                extra.append((b.args[1].args[1], e))
                continue
        out[b] = e
    if extra:
        r = _mkprod(c, out)
        for b, e in extra:
            r = mul(r, ipow(b, int(e)))
        return r
    if not out:
        return const(c)
    if len(out) == 1:
        (b, e), = out.items()
        if e == 1:
            return scale(b, c)
    m = _mk('*', tuple(sorted(out.items(), key=lambda p: p[0].id)))
    if c == 1:
        return m
    return _mksum(F0, {m: c})


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == 'c':
        return scale(b, a.args)
    if b.op == 'c':
        return scale(a, b.args)
    ca, da = _mono(a)
    cb, db = _mono(b)
    for t, e in db.items():
        da[t] = da.get(t, F0) + e
    return _mkprod(ca * cb, da)


def ipow(a, n):
    if n == 0:
        return ONE
    if a.op == 'c':
        if a.args == 0 and n < 0:
            raise ZeroDivisionError('symbolic division by the constant zero')
        return const(a.args ** n)
    c, d = _mono(a)
    return _mkprod(c ** n, {t: e * n for t, e in d.items()})


def inv(a):
    return ipow(a, -1)


def div(a, b):
    if b.op == 'c':
        if b.args == 0:
            raise ZeroDivisionError('symbolic division by the constant zero')
        return scale(a, 1 / b.args)
    return mul(a, inv(b))


# --------------------------------------------------------------------------------------------- functions
def fn(name, *args):
    return _mk('fn', (name,) + args)


def _isqrt_frac(f):
    n, d = f.numerator, f.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def known_nonneg(t):
    if t.op == 'c':
        return t.args >= 0
    if t.op == 'fn':
        return t.args[0] in ('abs', 'exp1', 'rt')
    if t.op == 'v':
        return t.args[0] in NONNEG
    if t.op == '*':
        return all((e.denominator == 1 and e.numerator % 2 == 0) or e.denominator != 1 or known_nonneg(b)
                   for b, e in t.args)
    if t.op == '+':
        return t.args[0] >= 0 and all(k >= 0 and known_nonneg(u) for u, k in t.args[1])
    if t.op == 'ite':
        return known_nonneg(t.args[1]) and known_nonneg(t.args[2])
    return False


NONNEG = set()      # names of the variables declared non-negative by the harness (a declared assumption)


def rpow(a, q):
    """a ** q for a rational exponent q; a >= 0 is the domain (negative a: NaN in numpy)."""
    q = Fraction(q)
    if q.denominator == 1:
        return ipow(a, int(q))
    if a.op == 'c':
        if a.args < 0:
            raise Unsupported('root of a negative constant')
        if a.args == 0:
            if q < 0:
                raise ZeroDivisionError('0 ** negative')
            return ZERO
        if q.denominator == 2:
            r = _isqrt_frac(a.args)
            if r is not None:
                return const(r ** int(q.numerator))
            # integers under the root only: sqrt(n/d) = sqrt(n*d)/d
            n = a.args.numerator * a.args.denominator
            # take square factors out
            k, m = 1, n
            p = 2
            while p * p <= m and p < 1000:
                while m % (p * p) == 0:
                    m //= p * p
                    k *= p
                p += 1
            base = fn('rt', const(m))
            r = Fraction(k, a.args.denominator)
            return _mkprod(r ** int(q.numerator), {base: q})
        return _mkprod(F1, {fn('rt', a): q})
    # split off the factors that are known to be non-negative
    c, d = _mono(a)
    pos = {}
    rest = {}
    for b, e in d.items():
        if e.denominator != 1 or known_nonneg(b):
            pos[b] = e
        elif e.numerator % 2 == 0:
            pos[absr(b)] = e
        else:
            rest[b] = e
    out = ONE
    if c < 0 or rest:
        r = _mkprod(c, rest)
        out = _mkprod(F1, {fn('rt', r): q})
    elif c != 1:
        out = rpow(const(c), q)
    for b, e in pos.items():
        ee = e * q
        if ee.denominator == 1 or (b.op == 'fn' and b.args[0] in ('exp1', 'rt')):
            out = mul(out, _mkprod(F1, {b: ee}))
        else:
            out = mul(out, _mkprod(F1, {fn('rt', b): ee}))
    return out


def sqrt(a):
    return rpow(a, Fraction(1, 2))


def absr(a):
    if a.op == 'c':
        return const(abs(a.args))
    if known_nonneg(a):
        return a
    c, d = _mono(a)
    out = const(abs(c))
    for b, e in d.items():
        if known_nonneg(b) or e.denominator != 1 or e.numerator % 2 == 0:
            out = mul(out, _mkprod(F1, {b: e}))
        else:
            out = mul(out, _mkprod(F1, {_absatom(b): e}))
    return out


def _absatom(b):
    if b.op == '+':
        # normalise the sign so that |x-y| and |y-x| are the same atom
        if b.args[1][0][1] < 0:
            b = neg(b)
    return fn('abs', b)


def expand(a, limit=4000):
    """Full polynomial expansion (used for the small arguments of exp/cos/sin only)."""
    c, l = _lin(a)
    out = const(c)
    parts = [out]
    for t, k in l:
        parts.append(scale(_expand_mono(t, limit), k))
    return addn(parts)


def _expand_mono(t, limit):
    if t.op != '*':
        return t if t.op != '+' else expand(t, limit)
    acc = {(): F1}
    for b, e in t.args:
        if b.op == '+' and e.denominator == 1 and e > 0:
            cb, lb = _lin(expand(b, limit))
            items = ([((), cb)] if cb != 0 else []) + [(tuple(_mono(u)[1].items()), k * _mono(u)[0]) for u, k in lb]
            for _ in range(int(e)):
                new = {}
                for m1, k1 in acc.items():
                    for m2, k2 in items:
                        d = dict(m1)
                        for bb, ee in m2:
                            d[bb] = d.get(bb, F0) + ee
                        key = tuple(sorted(((bb, ee) for bb, ee in d.items() if ee != 0), key=lambda p: p[0].id))
                        new[key] = new.get(key, F0) + k1 * k2
                if len(new) > limit:
                    raise Unsupported('expansion too large')
                acc = new
        else:
            new = {}
            for m1, k1 in acc.items():
                d = dict(m1)
                d[b] = d.get(b, F0) + e
                key = tuple(sorted(((bb, ee) for bb, ee in d.items() if ee != 0), key=lambda p: p[0].id))
                new[key] = new.get(key, F0) + k1
            acc = new
    return addn([_mkprod(k, dict(m)) for m, k in acc.items()])


def exp(a):
    a = expand(a)
    c, l = _lin(a)
    d = {}
    if c != 0:
        d[fn('exp1', ONE)] = c
    for t, k in l:
        d[fn('exp1', t)] = k
    return _mkprod(F1, d)


def log(a):
    if a is ONE:
        return ZERO
    c, d = _mono(a)
    if c == 1 and len(d) == 1:
        (b, e), = d.items()
        if b.op == 'fn' and b.args[0] == 'exp1':
            return scale(b.args[1], e)
        if b.op == 'fn' and b.args[0] == 'rt':
            return scale(log(b.args[1]), e)
        if e != 1 and known_nonneg(b):
            return scale(log(b), e)
    return fn('log', a)


def powr(a, b):
    """a ** b, real a >= 0 unless b is an integer constant"""
    if b.op == 'c':
        return rpow(a, b.args)
    if a is ONE:
        return ONE
    if a is ZERO:
        return ITE(cmp('==', b), ONE, ZERO)
    return exp(mul(b, log(a)))


def _cs_table(q):
    """exact cos, sin of q*pi for q multiple of 1/6 or 1/4, else None"""
    q = q % 2
    r3 = lambda k: scale(sqrt(const(3)), Fraction(k, 2))
    r2 = lambda k: scale(sqrt(const(2)), Fraction(k, 2))
    h = Fraction(1, 2)
    t = {Fraction(0): (ONE, ZERO), Fraction(1, 6): (r3(1), const(h)), Fraction(1, 4): (r2(1), r2(1)),
         Fraction(1, 3): (const(h), r3(1)), h: (ZERO, ONE)}
    if q in t:
        return t[q]
    if h < q <= 1 and (1 - q) in t:
        c, s = t[1 - q]
        return neg(c), s
    if 1 < q <= Fraction(3, 2) and (q - 1) in t:
        c, s = t[q - 1]
        return neg(c), neg(s)
    if Fraction(3, 2) < q < 2 and (2 - q) in t:
        c, s = t[2 - q]
        return c, neg(s)
    return None


def _cs_multiple(c, s, n):
    """cos, sin of n times the angle with cos c and sin s"""
    if n < 0:
        c2, s2 = _cs_multiple(c, s, -n)
        return c2, neg(s2)
    rc, rs = ONE, ZERO
    for _ in range(n):
        rc, rs = sub(mul(rc, c), mul(rs, s)), add(mul(rs, c), mul(rc, s))
    return rc, rs


_cs_cache = {}


def cossin(a):
    if a in _cs_cache:
        return _cs_cache[a]
    a0 = a
    a = expand(a)
    c, l = _lin(a)
    rc, rs = ONE, ZERO
    parts = []
    if c != 0:
        q = fn('cosq', ONE, const(c)), fn('sinq', ONE, const(c))
        parts.append(q)
    for t, k in l:
        if t is PI:
            cs = _cs_table(k)
            if cs is None:
                cs = fn('cosq', PI, const(k % 2)), fn('sinq', PI, const(k % 2))
            parts.append(cs)
            continue
        if t.op == 'fn' and t.args[0] == 'arg' and k.denominator == 1:
            re, im = t.args[1], t.args[2]
            r = sqrt(add(mul(re, re), mul(im, im)))
            parts.append(_cs_multiple(div(re, r), div(im, r), int(k)))
            continue
        base = const(Fraction(1, k.denominator))
        parts.append(_cs_multiple(fn('cosq', t, base), fn('sinq', t, base), k.numerator))
    for c2, s2 in parts:
        rc, rs = sub(mul(rc, c2), mul(rs, s2)), add(mul(rs, c2), mul(rc, s2))
    _cs_cache[a0] = (rc, rs)
    return rc, rs


# ------------------------------------------------------------------------------------------------ booleans
class B(object):
    __slots__ = ('op', 'args', 'id', '_vars')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        _ids[0] += 1
        self.id = _ids[0]
        self._vars = None

    def __repr__(self):
        return showb(self)


def _mkb(op, args):
    k = ('B', op, args)
    t = _table.get(k)
    if t is None:
        t = B(op, args)
        _table[k] = t
    return t


TRUE = _mkb('true', ())
FALSE = _mkb('false', ())


def bconst(v):
    return TRUE if v else FALSE


def cmp(op, t):
    """t op 0, op in == < <="""
    if t.op == 'c':
        v = t.args
        return bconst(v == 0 if op == '==' else v < 0 if op == '<' else v <= 0)
    if op == '<=' and known_nonneg(neg(t)):
        return TRUE
    if op == '<' and known_nonneg(t):
        return FALSE
    # canonical sign / scale
    c, l = _lin(t)
    k = abs(l[0][1])
    if op == '==':
        k = l[0][1]
    if k != 1:
        t = scale(t, 1 / k)
    return _mkb('cmp', (op, t))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'cmp' and b.args[0] == '<':
        return cmp('<=', neg(b.args[1]))
    if b.op == 'cmp' and b.args[0] == '<=':
        return cmp('<', neg(b.args[1]))
    return _mkb('not', (b,))


def band(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE or b in out:
            continue
        out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mkb('and', tuple(out))


def bor(*bs):
    return bnot(band(*[bnot(b) for b in bs]))


def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def same(a, b):
    """the equality of two terms as it stands, left to the solver"""
    return _mkb('same', (a, b))


def bvar(name):
    return _mkb('bv', (name,))


def ITE(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _mk('ite', (c, a, b))


def floor(a):
    if a.op == 'c':
        return const(math.floor(a.args))
    return fn('floor', a)


# ------------------------------------------------------------------------------------------------- printing
def show(t, depth=4):
    if depth < 0:
        return '..'
    if t.op == 'c':
        return str(t.args)
    if t.op == 'v':
        return t.args[0]
    if t.op == '+':
        s = ['%s*%s' % (k, show(u, depth - 1)) if k != 1 else show(u, depth - 1) for u, k in t.args[1][:8]]
        if len(t.args[1]) > 8:
            s.append('..(%d)' % len(t.args[1]))
        if t.args[0] != 0:
            s.append(str(t.args[0]))
        return '(' + ' + '.join(s) + ')'
    if t.op == '*':
        return '*'.join(show(b, depth - 1) + ('^%s' % e if e != 1 else '') for b, e in t.args)
    if t.op == 'ite':
        return 'ite(%s,%s,%s)' % (showb(t.args[0], depth - 1), show(t.args[1], depth - 1), show(t.args[2], depth - 1))
    return '%s(%s)' % (t.args[0], ','.join(show(u, depth - 1) for u in t.args[1:]))


def showb(b, depth=4):
    if depth < 0:
        return '..'
    if b.op == 'cmp':
        return '%s %s 0' % (show(b.args[1], depth - 1), b.args[0])
    if b.op in ('true', 'false'):
        return b.op
    if b.op == 'bv':
        return b.args[0]
    return '%s(%s)' % (b.op, ','.join(showb(x, depth - 1) for x in b.args))


# ------------------------------------------------------------------------------------------------ evaluation
class EvalError(Exception):
    pass


DEFS = {}      # variables that stand for a computed value: name -> function(env)
AXIOMS = {}    # variables that stand for a computed value: name -> the conditions that define it


def axioms(ts):
    """the defining conditions of every computed value the terms depend on"""
    out, seen, todo = [], set(), list(ts)
    while todo:
        new = []
        for n in free_vars(todo):
            if n in AXIOMS and n not in seen:
                seen.add(n)
                for a in AXIOMS[n]:
                    if a not in seen:
                        seen.add(a)
                        new.append(a)
        out += new
        todo = new
    return out


def evaluate(t, env, memo=None):
    """Numeric value of a term: exact Fraction when possible, else float. env: name -> number"""
    if memo is None:
        memo = {}
    # iterative post-order to stay clear of the recursion limit
    stack = [t]
    while stack:
        u = stack[-1]
        if u in memo:
            stack.pop()
            continue
        deps = [d for d in children(u) if d not in memo]
        if deps:
            stack.extend(deps)
            continue
        memo[u] = _eval1(u, env, memo)
        stack.pop()
    return memo[t]


def children(u):
    if isinstance(u, B):
        if u.op == 'cmp':
            return (u.args[1],)
        if u.op in ('not', 'and', 'same'):
            return u.args
        return ()
    if u.op == '+':
        return tuple(x for x, _ in u.args[1])
    if u.op == '*':
        return tuple(x for x, _ in u.args)
    if u.op == 'ite':
        return u.args
    if u.op == 'fn':
        return u.args[1:]
    return ()


def _fpow(b, e):
    if e.denominator == 1:
        e = int(e)
        if b == 0 and e < 0:
            raise EvalError('division by zero')
        return b ** e
    if b < 0:
        if b > -1e-12:
            b = 0.0
        else:
            raise EvalError('root of negative')
    if b == 0 and e < 0:
        raise EvalError('division by zero')
    return float(b) ** float(e)


def _eval1(u, env, memo):
    op = u.op
    try:
        if isinstance(u, B):
            if op == 'cmp':
                v = memo[u.args[1]]
                return v == 0 if u.args[0] == '==' else v < 0 if u.args[0] == '<' else v <= 0
            if op == 'not':
                return not memo[u.args[0]]
            if op == 'and':
                return all(memo[x] for x in u.args)
            if op == 'same':
                return memo[u.args[0]] == memo[u.args[1]]
            if op == 'bv':
                return bool(env[u.args[0]])
            return op == 'true'
        if op == 'c':
            return u.args
        if op == 'v':
            if u.args[0] == '$pi':
                return math.pi
            n = u.args[0]
            return env[n] if n in env or n not in DEFS else DEFS[n](env)
        if op == '+':
            r = u.args[0]
            for x, k in u.args[1]:
                r = r + _m(k, memo[x])
            return r
        if op == '*':
            r = F1
            for x, e in u.args:
                r = _m(r, _fpow(memo[x], e))
            return r
        if op == 'ite':
            return memo[u.args[1]] if memo[u.args[0]] else memo[u.args[2]]
        name = u.args[0]
        a = [memo[x] for x in u.args[1:]]
        if name == 'exp1':
            return math.exp(a[0])
        if name == 'cosq':
            return math.cos(float(a[0]) * float(a[1]))
        if name == 'sinq':
            return math.sin(float(a[0]) * float(a[1]))
        if name == 'abs':
            return abs(a[0])
        if name == 'rt':
            return a[0]
        if name == 'log':
            if a[0] <= 0:
                raise EvalError('log of non-positive')
            return math.log(a[0])
        if name == 'arg':
            return math.atan2(float(a[1]), float(a[0]))
        if name == 'floor':
            return Fraction(math.floor(a[0]))
        if name == 'free':
            return env[u]
    except (OverflowError, ValueError, KeyError) as e:
        raise EvalError(repr(e))
    raise EvalError('cannot evaluate %s' % name)


def _m(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) * float(b)
    return a * b


def free_vars(ts):
    seen = set()
    out = {}
    stack = list(ts)
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'v' and not isinstance(u, B):
            out[u.args[0]] = u
        elif isinstance(u, B) and u.op == 'bv':
            out[u.args[0]] = u
        else:
            stack.extend(children(u))
    return out


def size(ts):
    seen = set()
    stack = list(ts)
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        stack.extend(children(u))
    return len(seen)


def sort_of(name):
    return VARS[name][1] if name in VARS else 'Real'
