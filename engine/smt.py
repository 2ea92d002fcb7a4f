"""Translation of terms to SMT-LIB and the z3 back end.

Every real term is brought to numerator / denominator form (denominators collected as a multiset of factors
that are assumed non-zero), so that what z3 sees are polynomial (in)equalities over the inputs and over the
atoms (roots, exp, cos/sin pairs, ites), each atom constrained by its defining axioms.
"""
import importlib.util
import math
import random
import sys
import time
from fractions import Fraction

from . import terms as tm
from .terms import T, B, const, F1, F0, Unsupported

Z3_DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'


def _load_z3():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    spec = importlib.util.spec_from_file_location('z3', Z3_DIR + '/__init__.py', submodule_search_locations=[Z3_DIR])
    mod = importlib.util.module_from_spec(spec)
    sys.modules['z3'] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = _load_z3()


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.max_time = 0.0
        self.max_terms = 0

    def merge(self, d):
        self.queries += d['queries']
        self.unsat += d['unsat']
        self.sat += d['sat']
        self.unknown += d['unknown']
        self.time += d['time']
        self.max_time = max(self.max_time, d['max_time'])
        self.max_terms = max(self.max_terms, d['max_terms'])

    def dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    time=round(self.time, 3), max_time=round(self.max_time, 3), max_terms=self.max_terms)


STATS = Stats()


# --------------------------------------------------------------------------------------- numerator / denominator
def nd(t):
    """(N, D): t = N / prod(b**e for b,e in D), N without negative exponents. Memoised on the term."""
    if t._nd is not None:
        return t._nd
    stack = [t]
    while stack:
        u = stack[-1]
        if u._nd is not None:
            stack.pop()
            continue
        if u.op in '+*' and u.op != '':
            deps = [x for x, _ in (u.args[1] if u.op == '+' else u.args) if x._nd is None]
            if deps:
                stack.extend(deps)
                continue
        u._nd = _nd1(u)
        if u._nd[0]._nd is None:
            u._nd[0]._nd = (u._nd[0], {})
        stack.pop()
    return t._nd


def _nd1(t):
    if t.op == '+':
        parts = [(tm.scale(nd(u)[0], k), nd(u)[1]) for u, k in t.args[1]]
        if t.args[0] != 0:
            parts.append((const(t.args[0]), {}))
        common = {}
        for _, d in parts:
            for b, e in d.items():
                if common.get(b, F0) < e:
                    common[b] = e
        if not common:
            return tm.addn([n for n, _ in parts]), {}
        ns = []
        for n, d in parts:
            f = n
            for b, e in common.items():
                r = e - d.get(b, F0)
                if r:
                    f = tm.mul(f, _pw(b, r))
            ns.append(f)
        return tm.addn(ns), common
    if t.op == '*':
        n = tm.ONE
        den = {}
        num = []
        for b, e in t.args:
            bn, bd = nd(b)
            if e > 0:
                num.append((bn, e))
                for x, k in bd.items():
                    den[x] = den.get(x, F0) + k * e
            else:
                if bn.op == 'c':
                    n = tm.mul(n, tm.rpow(bn, e))
                else:
                    c, mono = tm._mono(bn)
                    if c != 1:
                        n = tm.mul(n, tm.rpow(const(abs(c)), e) if e.denominator != 1 else const(c ** int(e)))
                    for x, k in mono.items():
                        den[x] = den.get(x, F0) + k * (-e)
                for x, k in bd.items():
                    num.append((x, k * (-e)))
        for b, e in num:
            # cancel against the denominator where the same factor occurs
            if b in den:
                k = min(e, den[b])
                den[b] -= k
                e = e - k
                if den[b] == 0:
                    del den[b]
            if e:
                n = tm.mul(n, _pw(b, e))
        return n, den
    return t, {}


def _pw(b, e):
    if e.denominator == 1:
        return tm.ipow(b, int(e))
    return tm._mkprod(F1, {b: e})


# ------------------------------------------------------------------------------------------------- emission
class Emit(object):
    def __init__(self, exp_facts=False):
        self.decl = []
        self.lines = []       # declarations/definitions, in order
        self.axioms = []
        self.names = {}
        self.n = 0
        self.root = {}        # base -> lcm of the exponent denominators
        self.side = set()
        self.exp_facts = exp_facts
        self.hasint = False
        self.input_names = {}

    def fresh(self, p, sort='Real'):
        self.n += 1
        nm = '%s!%d' % (p, self.n)
        self.lines.append('(declare-const %s %s)' % (nm, sort))
        return nm

    def num(self, f):
        if f < 0:
            return '(- %s)' % self.num(-f)
        if f.denominator == 1:
            return '%d.0' % f.numerator
        return '(/ %d.0 %d.0)' % (f.numerator, f.denominator)

    # ---- collect the roots needed
    def scan(self, roots):
        seen = set()
        stack = list(roots)
        while stack:
            u = stack.pop()
            if u in seen:
                continue
            seen.add(u)
            if isinstance(u, T) and u.op == '*':
                for b, e in u.args:
                    if e.denominator != 1:
                        q = self.root.get(b, 1)
                        self.root[b] = q * e.denominator // math.gcd(q, e.denominator)
            if isinstance(u, B) and u.op == 'cmp':
                n, d = nd(u.args[1])
                stack.append(n)
                for b, e in d.items():
                    if e.denominator != 1:
                        q = self.root.get(b, 1)
                        self.root[b] = q * e.denominator // math.gcd(q, e.denominator)
                    stack.append(b)
            else:
                for c in tm.children(u):
                    stack.append(c)
                    if isinstance(c, T):
                        n, d = nd(c)
                        if n is not c:
                            stack.append(n)
                            for b, e in d.items():
                                if e.denominator != 1:
                                    q = self.root.get(b, 1)
                                    self.root[b] = q * e.denominator // math.gcd(q, e.denominator)
                                stack.append(b)
        self.maxterms = len(seen)

    def base_atom(self, b):
        """SMT name of base ** (1/root[b])"""
        key = ('root', b)
        if key in self.names:
            return self.names[key]
        q = self.root.get(b, 1)
        nm = self.fresh('r')
        self.names[key] = nm
        if b.op == 'fn' and b.args[0] == 'exp1':
            self.axioms.append('(> %s 0.0)' % nm)
            if self.exp_facts:
                mn, md = self.quot(b.args[1])
                if md is None:
                    self.axioms.append('(=> (> %s 0.0) (> %s 1.0))' % (mn, nm))
                    self.axioms.append('(=> (< %s 0.0) (< %s 1.0))' % (mn, nm))
                    self.axioms.append('(=> (= %s 0.0) (= %s 1.0))' % (mn, nm))
                    # e^m >= 1 + m (tangent), for the base itself
                    if q == 1:
                        self.axioms.append('(>= %s (+ 1.0 %s))' % (nm, mn))
            return nm
        # value of the base itself
        if b.op == 'fn' and b.args[0] == 'rt':
            x = b.args[1]
        else:
            x = b
        xn, xd = self.quot(x)
        self.axioms.append('(>= %s 0.0)' % nm)
        p = '(* %s)' % ' '.join([nm] * q) if q > 1 else nm
        self.axioms.append('(= %s %s)' % ('(* %s %s)' % (p, xd) if xd else p, xn))
        return nm

    def quot(self, t):
        """(numerator name, denominator name or None) of any term"""
        n, d = nd(t)
        nn = self.term(n)
        if not d:
            return nn, None
        for b in d:
            self.note_side(b)
        return nn, self.term(self.dprod(d))

    def dprod(self, d):
        p = tm.ONE
        for b, e in d.items():
            p = tm.mul(p, _pw(b, e))
        return p

    def note_side(self, b):
        if b not in self.side:
            self.side.add(b)
            self.term(b)

    def term(self, t):
        """SMT name/expr of a den-free term"""
        if t in self.names:
            return self.names[t]
        stack = [t]
        while stack:
            u = stack[-1]
            if u in self.names:
                stack.pop()
                continue
            if u.op == '+':
                deps = [x for x, _ in u.args[1] if x not in self.names]
            elif u.op == '*':
                deps = [x for x, e in u.args if x not in self.names and x not in self.root
                        and not (x.op == 'fn' and x.args[0] in ('exp1', 'rt'))]
            else:
                deps = []
            if deps:
                stack.extend(deps)
                continue
            self.names[u] = self._term1(u)
            stack.pop()
        return self.names[t]

    def _define(self, e):
        self.n += 1
        nm = 't!%d' % self.n
        self.lines.append('(define-fun %s () Real %s)' % (nm, e))
        return nm

    def _term1(self, t):
        if t.op == 'c':
            return self.num(t.args)
        if t.op == 'v':
            nm = t.args[0]
            sort = tm.VARS[nm][1]
            if sort == 'Int':
                self.hasint = True
            q = '|%s|' % nm
            self.lines.append('(declare-const %s %s)' % (q, sort))
            if nm == '$pi':
                self.axioms.append('(and (< 3.14159265358 |$pi|) (< |$pi| 3.14159265359))')
            self.input_names[nm] = q
            if sort == 'Int':
                return '(to_real %s)' % q
            return q
        if t.op == '+':
            ps = []
            if t.args[0] != 0:
                ps.append(self.num(t.args[0]))
            for u, k in t.args[1]:
                nm = self.names[u]
                ps.append(nm if k == 1 else '(* %s %s)' % (self.num(k), nm))
            e = ps[0] if len(ps) == 1 else '(+ %s)' % ' '.join(ps)
            return self._define(e)
        if t.op == '*':
            ps = []
            for b, e in t.args:
                if e < 0:
                    raise Unsupported('negative exponent reached emission')
                if b in self.root or (b.op == 'fn' and b.args[0] in ('exp1', 'rt')):
                    q = self.root.get(b, 1)
                    k = e * q
                    if k.denominator != 1:
                        raise Unsupported('root scan missed a base')
                    ps += [self.base_atom(b)] * int(k)
                else:
                    ps += [self.names[b]] * int(e)
            return self._define(ps[0] if len(ps) == 1 else '(* %s)' % ' '.join(ps))
        if t.op == 'ite':
            c = self.bool(t.args[0])
            an, ad = self.quot(t.args[1])
            bn, bd = self.quot(t.args[2])
            if ad is None and bd is None:
                return self._define('(ite %s %s %s)' % (c, an, bn))
            v = self.fresh('i')
            self.axioms.append('(=> %s (= %s %s))' % (c, v if ad is None else '(* %s %s)' % (v, ad), an))
            self.axioms.append('(=> (not %s) (= %s %s))' % (c, v if bd is None else '(* %s %s)' % (v, bd), bn))
            return v
        name = t.args[0]
        if name in ('exp1', 'rt'):
            q = self.root.get(t, 1)
            a = self.base_atom(t)
            return a if q == 1 else self._define('(* %s)' % ' '.join([a] * q))
        if name == 'abs':
            xn, xd = self.quot(t.args[1])
            if xd is None:
                return self._define('(ite (>= %s 0.0) %s (- %s))' % (xn, xn, xn))
            v = self.fresh('a')
            self.axioms.append('(>= %s 0.0)' % v)
            self.axioms.append('(or (= (* %s %s) %s) (= (* %s %s) (- %s)))' % (v, xd, xn, v, xd, xn))
            return v
        if name in ('cosq', 'sinq'):
            ct, st = tm.fn('cosq', *t.args[1:]), tm.fn('sinq', *t.args[1:])
            c, s = self.fresh('c'), self.fresh('s')
            self.names[ct], self.names[st] = c, s
            self.axioms.append('(= (+ (* %s %s) (* %s %s)) 1.0)' % (c, c, s, s))
            return self.names[t]
        if name == 'floor':
            xn, xd = self.quot(t.args[1])
            self.hasint = True
            v = self.fresh('f', 'Int')
            r = '(to_real %s)' % v
            if xd is None:
                self.axioms.append('(and (<= %s %s) (< %s (+ %s 1.0)))' % (r, xn, xn, r))
            else:
                w = self.fresh('q')
                self.axioms.append('(= (* %s %s) %s)' % (w, xd, xn))
                self.axioms.append('(and (<= %s %s) (< %s (+ %s 1.0)))' % (r, w, w, r))
            return r
        if name in ('log', 'arg', 'free'):
            return self.fresh(name)
        raise Unsupported('no encoding for %s' % name)

    def bool(self, b):
        if b in self.names:
            return self.names[b]
        if b.op == 'true' or b.op == 'false':
            return b.op
        if b.op == 'bv':
            nm = '|%s|' % b.args[0]
            self.lines.append('(declare-const %s Bool)' % nm)
            self.names[b] = nm
            self.input_names[b.args[0]] = nm
            return nm
        if b.op == 'not':
            e = '(not %s)' % self.bool(b.args[0])
        elif b.op == 'same':
            an, ad = self.quot(b.args[0])
            bn, bd = self.quot(b.args[1])
            e = '(= %s %s)' % (an if bd is None else '(* %s %s)' % (an, bd), bn if ad is None else '(* %s %s)' % (bn, ad))
        elif b.op == 'and':
            e = '(and %s)' % ' '.join(self.bool(x) for x in b.args)
        else:
            op, t = b.args
            n, d = nd(t)
            for x in d:
                self.note_side(x)
            if op != '==':
                for x, k in d.items():
                    if k.denominator == 1 and k.numerator % 2 == 0:
                        continue
                    if k.denominator != 1 or tm.known_nonneg(x):
                        continue
                    n = tm.mul(n, x)
                self._late_scan(n)
            e = '(%s %s 0.0)' % ('=' if op == '==' else op, self.term(n))
        self.n += 1
        nm = 'b!%d' % self.n
        self.lines.append('(define-fun %s () Bool %s)' % (nm, e))
        self.names[b] = nm
        return nm

    def _late_scan(self, n):
        # multiplying by a denominator factor may merge exponents: the bases were scanned already
        for u in [n] if n.op == '*' else []:
            for b, e in u.args:
                if e.denominator != 1 and self.root.get(b, 1) % e.denominator:
                    raise Unsupported('late root')

    def script(self, asserts):
        self.scan(asserts)
        body = [self.bool(a) for a in asserts]
        sides = []
        done = set()
        while True:
            todo = [s for s in self.side if s not in done]
            if not todo:
                break
            for s in todo:
                done.add(s)
                sides.append('(not (= %s 0.0))' % self.term(s))
        out = list(self.lines)
        for a in self.axioms + sides + body:
            out.append('(assert %s)' % a)
        return '\n'.join(out)


class Result(object):
    def __init__(self, status, model=None, script=None):
        self.status = status
        self.model = model
        self.script = script


def _val(v):
    if z3.is_int_value(v) or z3.is_rational_value(v):
        return Fraction(v.as_string())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.as_string())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def solve(asserts, timeout=20.0, exp_facts=False, want_model=True, strategies=None):
    """Satisfiability of the conjunction. status in sat/unsat/unknown."""
    asserts = [a for a in asserts if a is not tm.TRUE]
    if tm.AXIOMS:
        asserts = asserts + tm.axioms(asserts)
    t0 = time.time()
    STATS.queries += 1
    if any(a is tm.FALSE for a in asserts):
        # still goes through z3, as the literal false
        s = z3.Solver()
        s.add(z3.BoolVal(False))
        r = s.check()
        STATS.unsat += 1
        STATS.time += time.time() - t0
        return Result('unsat')
    em = Emit(exp_facts)
    text = em.script(asserts)
    STATS.max_terms = max(STATS.max_terms, em.maxterms)
    fs = z3.parse_smt2_string(text)
    status = 'unknown'
    model = None
    strategies = strategies or (['default', 'som', 'nlsat'] if not em.hasint else ['default'])
    budget = {'default': 0.3, 'som': 1.0, 'nlsat': 0.6}
    for st in strategies:
        tmo = int(1000 * timeout * budget[st])
        if st == 'default':
            s = z3.Solver()
            s.set('timeout', tmo)
            s.add(fs)
            r = s.check()
        elif st == 'som':
            # sums of monomials: polynomial identities become syntactic
            try:
                g = z3.Goal()
                g.add(fs)
                tac = z3.TryFor(z3.Then(z3.With('simplify', som=True, som_blowup=1000000, arith_lhs=True, blast_distinct=True),
                                        'propagate-values', 'solve-eqs',
                                        z3.With('simplify', som=True, som_blowup=1000000)), tmo)
                sub = tac(g)
            except z3.Z3Exception:
                continue
            if len(sub) == 1 and sub[0].inconsistent():
                status = 'unsat'
                break
            if len(sub) == 1 and len(sub[0]) == 0:
                continue
            s = z3.Solver()
            s.set('timeout', int(tmo * 0.3))
            for f in sub[0]:
                s.add(f)
            r = s.check()
            if r == z3.unsat:
                status = 'unsat'
                break
            continue
        else:
            try:
                s = z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', tmo)
                s.add(fs)
                r = s.check()
            except z3.Z3Exception:
                continue
        if r == z3.unsat:
            status = 'unsat'
            break
        if r == z3.sat:
            status = 'sat'
            if want_model:
                m = s.model()
                model = {}
                for d in m.decls():
                    nm = d.name()
                    if nm in em.input_names:
                        v = _val(m[d])
                        if v is not None:
                            model[nm] = v
                for nm in em.input_names:
                    model.setdefault(nm, Fraction(0))
            break
    dt = time.time() - t0
    STATS.time += dt
    STATS.max_time = max(STATS.max_time, dt)
    if status == 'sat':
        STATS.sat += 1
    elif status == 'unsat':
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return Result(status, model, text if status == 'unknown' else None)
