"""Path contexts: canonicalisation of expressions, z3 encoding, branch decisions."""
import math
import random
import sys
import time
from fractions import Fraction
from math import gcd, isqrt
import numpy as np
import z3
import sympy as sp

from . import expr as X
from .expr import E, Undefined, Unsupported
from .poly import (Ring, P, PZERO, PONE, pgen, pconst, padd, pscale, pgens, gens_of_mono, SH, M1, Blowup, _norm)


class Infeasible(BaseException):
    """the current path cannot happen"""


import os
DEBUG = os.environ.get('SYMWIZ_DEBUG')


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.maxq = 0.0
        self.decisions = 0


STATS = Stats()


def z3q(fr):
    fr = Fraction(fr)
    return z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def _log(res, dt, cons, what=''):
    STATS.queries += 1
    STATS.time += dt
    STATS.maxq = max(STATS.maxq, dt)
    setattr(STATS, res, getattr(STATS, res) + 1)
    if DEBUG and dt > 0.5:
        import traceback
        print('SLOW %.1fs %s %s' % (dt, res, what), ' <- '.join(f.name for f in traceback.extract_stack(limit=9)[:-1]), '\n    last:', str(cons[-1])[:300].replace('\n', ' '), flush=True)


def _solve(kind, cons, tmo, seed=0):
    if kind == 'lin':
        s = z3.SimpleSolver()
        s.set('arith.nl', False)
    elif kind:
        s = z3.SolverFor(kind)
    else:
        s = z3.Solver()
    s.set('timeout', int(tmo))
    if seed:
        s.set('random_seed', seed)
    s.add(*cons)
    return s, s.check()


def run_query(cons, timeout_ms=4000, want_model=False, seed=0):
    """-> ('sat', model) / ('unsat', None) / ('unknown', None)"""
    t0 = time.time()
    res, model = 'unknown', None
    for kind in ('QF_NRA', None):
        s, r = _solve(kind, cons, timeout_ms, seed)
        if r == z3.unsat:
            res = 'unsat'
            break
        if r == z3.sat:
            res = 'sat'
            if want_model:
                model = s.model()
            break
    _log(res, time.time() - t0, cons)
    return res, model


class Gen:
    __slots__ = ('kind', 'name', 'args', 'axioms', 'z', 'deps')

    def __init__(self, kind, name, args=()):
        self.kind, self.name, self.args = kind, name, args
        self.axioms = None
        self.z = None
        self.deps = ()


class Point:
    """a sample of the inputs: only used to see quickly that a branch is feasible and as witness candidates"""
    __slots__ = ('seed', 'vals', 'gv', 'ctx', 'fixed')

    def __init__(self, ctx, seed, fixed=None):
        self.ctx, self.seed, self.gv = ctx, seed, {}
        self.fixed = dict(fixed or {})
        self.vals = {}

    def var(self, name):
        v = self.vals.get(name)
        if v is None:
            if name in self.fixed:
                v = self.fixed[name]
            else:
                lo, hi = self.ctx.nice.get(name, (-2, 3))
                lo, hi = float(lo), float(hi)
                rng = random.Random('%s|%s' % (self.seed, name))
                v = round(lo + (hi - lo) * (0.03 + 0.94 * rng.random()), 6)
            self.vals[name] = v
        return v

    def gen(self, i):
        v = self.gv.get(i)
        if v is None:
            try:
                v = self._gen(i)
            except (ValueError, OverflowError, ZeroDivisionError, KeyError):
                v = math.nan
            self.gv[i] = v
        return v

    def _gen(self, i):
        g = self.ctx.R.gens[i]
        k = g.kind
        if k == 'var':
            return self.var(g.name)
        if k == 'pi':
            return math.pi
        if k in ('sqrt', 'root', 'abs'):
            v, m = self.poly(g.args[0])
            if k == 'abs':
                return abs(v)
            if v < 0 and v > -1e-13 * m:
                v = 0.0
            v = math.sqrt(v)
            if k == 'root':
                if g.name in self.fixed:
                    s = self.fixed[g.name]
                else:
                    s = 1 if random.Random('%s|%s' % (self.seed, g.name)).random() < .7 else -1
                v = math.copysign(v, s)
                self.vals[g.name] = v
            return v
        if k in ('cos', 'sin'):
            a = g.args[0]
            if a is None:
                a = math.pi / int(g.name.split('/')[1].rstrip(']'))
            else:
                a = self.rf(a)[0]
            return math.cos(a) if k == 'cos' else math.sin(a)
        if k == 'fn':
            a = [self.rf(x)[0] if type(x) is tuple else x for x in g.args]
            n = g.name
            if n == 'K' or n == 'Ee':
                from scipy.special import ellipk, ellipe
                return float(ellipk(a[0]) if n == 'K' else ellipe(a[0]))
            if n == 'Pi':
                import mpmath
                return float(mpmath.ellippi(a[0], a[1]))
            if n == 'floor':
                return float(math.floor(a[0]))
            if n == 'rint':
                return float(round(a[0]))
            if n in ('exp', 'cosh', 'sinh', 'log'):
                return getattr(math, n)(a[0])
            if n == 'arctan':
                return math.atan(a[0])
            if n == 'arctan2':
                return math.atan2(a[0], a[1])
            if n == 'arccos':
                return math.acos(a[0])
            if n == 'powq':
                return math.pow(a[0], float(a[1]))
            if n.startswith('stub_'):
                if any(x != x for x in a if isinstance(x, float)):
                    return math.nan
                return random.Random('%s|%s' % (n, ','.join('%.9g' % float(x) for x in a))).uniform(-2, 2)
        return math.nan

    def poly(self, p):
        """value and the sum of the absolute values of the terms"""
        v = m = 0.0
        for mo, c in p.t.items():
            t = float(c)
            for i, e in gens_of_mono(mo):
                t *= self.gen(i) ** e
            v += t
            m += abs(t)
        return v, m

    def rf(self, rf):
        """value (nan when undefined) and certainty of the sign"""
        v = float(rf[0])
        sure = True
        for p, e in rf[1].items():
            x, m = self.poly(p)
            if not abs(x) > 1e-9 * m:
                sure = False
                if e < 0:
                    return math.nan, False
            v *= x ** e
        return v, sure

    def holds(self, rf, rel):
        """True / False / None (not certain)"""
        s = 1 if rf[0] > 0 else (-1 if rf[0] < 0 else 0)
        zero = False
        for p, e in rf[1].items():
            x, m = self.poly(p)
            if x != x:
                return None
            if x == 0 and (m == 0 or len(p.t) <= 3):
                if e < 0:
                    return None
                zero = True
            elif not abs(x) > 1e-9 * m:
                return None
            elif x < 0 and e % 2:
                s = -s
        if zero:
            s = 0
        return {'<': s < 0, '>': s > 0, '==': s == 0, '!=': s != 0, '<=': s <= 0, '>=': s >= 0}[rel]


NPOOL = 20


class Context:
    """one execution path"""

    def __init__(self, prefix=(), timeout_ms=2500, max_decisions=400, seeds=(), shared=None):
        self.R = Ring()
        self.unroll = 0          # loop bound (0: none); see count_decision
        self.places = {}
        self.cut = 0             # paths left at the loop bound
        self.havoc = None        # list of (expr, unknown) when |x| is abstracted
        self.nice = {}
        self.shared = shared if shared is not None else []      # values of interesting points, kept between paths
        self.pool = [Point(self, sd) for sd in seeds] + [Point(self, 'm', f) for f in self.shared]
        self.holdl = []          # (rf, rel) form of the path constraints
        self.prefix = list(prefix)
        self.trace = []          # decisions actually forked: list of bool
        self.pending = []        # alternative prefixes discovered on this path
        self.cons = []           # z3 constraints of the path (assumptions + decisions)
        self.consg = []
        self.memo = {}
        self.keep = []           # keep E alive
        self.vargen = {}
        self.fngen = {}          # (kind, ...) -> list of (args RF, gen index)
        self.sqrtgen = {}        # P -> gen index
        self.absgen = {}
        self.signs = {}
        self.decpolys = {}      # trigonometric polynomials of decided signs
        self.deccache = {}
        self.timeout = timeout_ms
        self.maxdec = max_decisions
        self.vars = {}           # name -> E
        self.pigen = None
        self.desc = []
        self.used = set()        # gens mentioned by the path constraints
        self.known_ok = set()
        self.stubs = {}

    # ------------------------------------------------------------ generators
    def newgen(self, kind, name, args=(), rule=None):
        i = self.R.new(Gen(kind, name, args), rule)
        g = self.R.gens[i]
        g.z = z3.Real('%s!%d' % (name, i))
        if rule is not None:
            g.deps = tuple(pgens(rule))
        return i

    def g_var(self, name):
        if name not in self.vargen:
            i = self.vargen[name] = self.newgen('var', name)
            self.R.gens[i].z = z3.Real(name)
        return self.vargen[name]

    def g_root(self, name, sq):
        """free-sign unknown with a polynomial square"""
        rf = self.canon(sq)
        if any(e < 0 for e in rf[1].values()):
            raise Unsupported('root of a non polynomial')
        p = pscale(self.R.expand(rf[1]), rf[0]) if rf[1] else pconst(rf[0])
        i = self.vargen[name] = self.newgen('root', name, (p,), rule=p)
        g = self.R.gens[i]
        g.z = z3.Real(name)
        g.axioms = [g.z * g.z == self.zpoly(p)]
        self.used.add(i)
        return i

    def g_pi(self):
        if self.pigen is None:
            self.pigen = i = self.newgen('pi', 'pi')
            z = self.R.gens[i].z
            self.R.gens[i].axioms = [z > z3q('3.141592653589793'), z < z3q('3.141592653589794')]
        return self.pigen

    def rf_gen(self, i): return (1, {pgen(i): 1})

    def g_sqrt(self, p):
        i = self.sqrtgen.get(p)
        if i is None:
            # reuse a generator whose square is p
            i = self.newgen('sqrt', 'sqrt', (p,), rule=p)
            z = self.R.gens[i].z
            self.R.gens[i].axioms = [z >= 0, z * z == self.zpoly(p)]
            self.sqrtgen[p] = i
        return i

    # ------------------------------------------------------------ RF <-> z3
    def zmono(self, m):
        r = None
        for i, e in gens_of_mono(m):
            z = self.R.gens[i].z
            for _ in range(e):
                r = z if r is None else r * z
        return r

    def zpoly(self, p):
        ts = []
        for m, c in p.t.items():
            zm = self.zmono(m)
            if zm is None:
                ts.append(z3q(c))
            elif c == 1:
                ts.append(zm)
            else:
                ts.append(z3q(c) * zm)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def closure(self, gs):
        out, st = set(), list(gs)
        while st:
            i = st.pop()
            if i in out:
                continue
            out.add(i)
            st.extend(self.R.gens[i].deps)
        return out

    def axioms(self, gs):
        out = []
        for i in sorted(self.closure(gs)):
            a = self.R.gens[i].axioms
            if a:
                out.extend(a() if callable(a) else a)
        return out

    def rf_gens(self, rf):
        s = set()
        for p in rf[1]:
            s |= pgens(p)
        return s

    def zrf_sign(self, rf):
        """z3 term with the same sign as rf (denominators assumed non zero), and the pure zero-numerator term"""
        c, f = rf
        t = z3.RealVal(1 if c > 0 else -1)
        for p, e in f.items():
            zp = self.zpoly(p)
            if e % 2:
                t = t * zp
            elif e > 0:
                t = t * (zp * zp)
        return t

    def zrf_num(self, rf):
        t = z3.RealVal(1)
        for p, e in rf[1].items():
            if e > 0:
                t = t * self.zpoly(p)
        return t

    # ------------------------------------------------------------ queries
    def check(self, extra, gens=(), timeout=None, want_model=False, seed=0):
        """is path + extra satisfiable?  Unsat answers may come from a subset of the path (sound); sat answers
        only from the complete set"""
        timeout = timeout or self.timeout
        g = set(gens) | self.used
        cons = list(self.cons) + self.axioms(g) + list(extra)
        if want_model:
            return run_query(cons, timeout, True, seed)
        t0 = time.time()
        # non linear terms as opaque: unsat is conclusive
        s, r = _solve('lin', cons, min(timeout, 200))
        if r == z3.unsat:
            _log('unsat', time.time() - t0, cons, 'lin')
            return 'unsat', None
        g0 = self.closure(gens)
        sub = [c for c, cg in zip(self.cons, self.consg) if cg <= g0]
        if len(sub) < len(self.cons):
            sc = sub + self.axioms(g0) + list(extra)
            s, r = _solve('QF_NRA', sc, min(timeout, 1500))
            if r == z3.unsat:
                _log('unsat', time.time() - t0, sc, 'subset')
                return 'unsat', None
        res = 'unknown'
        for kind in ('QF_NRA', None):
            s, r = _solve(kind, cons, timeout, seed)
            if r != z3.unknown:
                res = 'unsat' if r == z3.unsat else 'sat'
                break
        _log(res, time.time() - t0, cons, 'full')
        return res, None

    def add_constraint(self, z, gens, num=None):
        """num: (rf, rel) form of the constraint"""
        if num is None:
            self.pool = []
        else:
            self.holdl.append(num)
            self.pool = [p for p in self.pool if p.holds(*num)]
        self.cons.append(z)
        self.consg.append(frozenset(self.closure(gens)))
        self.used |= set(gens)
        # facts only get stronger along a path: proven signs stay valid

    def psign(self, p):
        """'>=', '<=', '>' , '<' or None : proven sign of a polynomial on the path"""
        if p.isconst():
            c = p.cval()
            return '>' if c > 0 else ('<' if c < 0 else '0')
        k = self.signs.get(p)
        if k is not None and (k[0] is not None or k[1] == len(self.cons)):
            return k[0]
        res = None
        pr = (1, {p: 1})
        can_neg = any(q.holds(pr, '<') for q in self.pool)
        can_pos = any(q.holds(pr, '>') for q in self.pool)
        if len(p.t) <= 200 and not (can_neg and can_pos):
            zp = self.zpoly(p)
            g = pgens(p)
            if not can_neg and self.check([zp < 0], g, timeout=1500)[0] == 'unsat':
                res = '>=' if self.check([zp == 0], g, timeout=1500)[0] != 'unsat' else '>'
            elif not can_pos and self.check([zp > 0], g, timeout=1500)[0] == 'unsat':
                res = '<=' if self.check([zp == 0], g, timeout=1500)[0] != 'unsat' else '<'
        self.signs[p] = (res, len(self.cons))
        return res

    def rf_iszero(self, rf): return rf[0] == 0

    # ------------------------------------------------------------ canonical form
    def canon(self, e):
        r = self.memo.get(e.id)
        if r is not None:
            return r
        op = e.op
        R = self.R
        if op == 'const':
            r = (_norm(e.args[0]), {})
        elif op == 'pi':
            r = self.rf_gen(self.g_pi())
        elif op == 'var':
            r = self.rf_gen(self.g_var(e.args[0]))
        elif op in ('nan', 'inf', 'sinf'):
            raise Undefined('non-finite value')
        elif op == 'add':
            leaves = []
            st = [e]
            while st:
                n = st.pop()
                if n.op == 'add' and (n is e or n.id not in self.memo):
                    st.extend(n.args)
                else:
                    leaves.append(n)
            r = R.rf_sum([self.canon(n) for n in leaves])
        elif op == 'mul':
            a = self.canon(e.args[0])
            b = self.canon(e.args[1])
            r = R.rf_mul(a, b)
        elif op == 'pow':
            b = self.canon(e.args[0])
            k = e.args[1]
            if k.denominator == 1:
                if b[0] == 0 and k < 0:
                    raise Undefined('division by zero')
                r = R.rf_pow(b, int(k))
            elif k.denominator == 2:
                if b[0] == 0:
                    if k < 0:
                        raise Undefined('division by zero')
                    r = (0, {})
                else:
                    r = R.rf_pow(self.rf_sqrt(b), int(k * 2))
            else:
                r = self.canon_powq(b, k)
        elif op == 'fn':
            r = self.canon_fn(e)
        else:
            raise Unsupported(op)
        self.memo[e.id] = r
        self.keep.append(e)
        return r

    def rf_add(self, *rfs): return self.R.rf_sum(list(rfs))
    def rf_neg(self, a): return (-a[0], a[1])

    def rf_eqzero(self, rf): return rf[0] == 0

    # ---- square roots
    def _factor_poly(self, p):
        """list of (P, e), constant ; uses sympy for small polynomials"""
        if len(p.t) == 1 or len(p.t) > 80:
            return 1, [(p, 1)]
        gs = sorted(pgens(p))
        if len(gs) > 8:
            return 1, [(p, 1)]
        syms = {i: sp.Symbol('g%d' % i) for i in gs}
        ex = sp.Integer(0)
        for m, c in p.t.items():
            fr = Fraction(c)
            t = sp.Rational(fr.numerator, fr.denominator)
            for i, e in gens_of_mono(m):
                t = t * syms[i] ** e
            ex = ex + t
        inv = [i for i in gs]
        c, fl = sp.factor_list(ex, *[syms[i] for i in inv])
        out = []
        cc = Fraction(int(c.p), int(c.q))
        for f, e in fl:
            po = sp.Poly(f, *[syms[i] for i in inv])
            d = {}
            for mon, co in po.terms():
                m = 0
                for i, ee in zip(inv, mon):
                    m += int(ee) << (SH * i)
                d[m] = _norm(Fraction(int(co.p), int(co.q)))
            c2, f2 = self.R.primitive(P(d))
            cc *= Fraction(c2) ** int(e)
            for q, e2 in f2.items():
                out.append((q, e2 * int(e)))
        return cc, out

    def rf_abs_poly(self, p, sgn=None):
        """RF of |p|"""
        s = self.psign(p)
        if s in ('>=', '>'):
            return self.R.rf_norm(1, {p: 1})
        if s in ('<=', '<'):
            return self.R.rf_norm(-1, {p: 1})
        i = self.absgen.get(p)
        if i is None:
            sq = self.R.pmul(p, p)
            i = self.newgen('abs', 'abs', (p,), rule=sq)
            z = self.R.gens[i].z
            zp = self.zpoly(p)
            self.R.gens[i].axioms = [z >= 0, z3.Or(z == zp, z == -zp)]
            self.absgen[p] = i
        return self.rf_gen(i)

    def rf_sqrt(self, rf):
        R = self.R
        c, f = Fraction(rf[0]), dict(rf[1])
        out = (1, {})
        # direct hit: the radicand is (const times) the square of a known generator
        fl = {}
        for p, e in f.items():
            if e % 2 and len(p.t) > 1:
                hit = None
                for i, rule in R.rules.items():
                    if rule is p or rule == p:
                        hit = (i, 1)
                        break
                    if len(rule.t) == len(p.t) and R.gens[i].kind in ('sin',):
                        cr, fr = R.primitive(rule)
                        if len(fr) == 1 and p in fr and cr in (1, -1):
                            hit = (i, cr)
                            break
                if hit is not None:
                    i, cr = hit
                    c = c * cr ** e
                    g = self.R.gens[i]
                    if g.kind == 'sqrt':
                        r = self.rf_gen(i)
                    else:
                        r = self.rf_abs_poly(pgen(i))
                    out = R.rf_mul(out, R.rf_pow(r, e))
                    continue
            if len(p.t) > 1:
                cc, ps = self._factor_poly(p)
                c *= Fraction(cc) ** e
                for q, e2 in ps:
                    fl[q] = fl.get(q, 0) + e * e2
            else:
                fl[p] = fl.get(p, 0) + e
        bag = []
        for p, e in sorted(fl.items(), key=lambda x: (len(x[0].t), x[0].key)):
            q, r = divmod(e, 2)
            if q % 2 and not r:
                out = R.rf_mul(out, R.rf_pow(self.rf_abs_poly(p), q))
            elif not r:
                out = R.rf_mul(out, R.rf_norm(1, {p: q}))
            else:
                sq = self.square_root(p)
                if sq is not None:
                    k, b = sq
                    out = R.rf_mul(out, R.rf_pow(R.rf_mul(self.q_sqrt(k), self.rf_abs_poly(b)), e))
                    continue
                s = self.psign(p)
                if s in ('>=', '>'):
                    i = self.g_sqrt(p)
                    out = R.rf_mul(out, R.rf_mul(R.rf_norm(1, {p: q}), self.rf_gen(i)))
                elif s in ('<=', '<'):
                    c = -c
                    np_ = pscale(p, -1)
                    i = self.g_sqrt(np_)
                    qq = R.rf_norm((-1) ** (q % 2), {p: q})   # (-p)^q
                    out = R.rf_mul(out, R.rf_mul(qq, self.rf_gen(i)))
                else:
                    bag.append(p)
                    if q:
                        if q % 2:
                            out = R.rf_mul(out, R.rf_pow(self.rf_abs_poly(p), q))
                        else:
                            out = R.rf_mul(out, R.rf_norm(1, {p: q}))
        if bag:
            t = PONE
            for p in bag:
                t = R.pmul(t, p)
            if c < 0:
                t = pscale(t, -1)
                c = -c
            c2, f2 = R.primitive(t)
            if c2 < 0 or len(f2) != 1 or list(f2.values()) != [1]:
                i = self.g_sqrt(t)
                out = R.rf_mul(out, self.rf_gen(i))
            else:
                c *= c2
                i = self.g_sqrt(list(f2)[0])
                out = R.rf_mul(out, self.rf_gen(i))
        if c < 0:
            # is the path itself contradictory?
            for p in rf[1]:
                if self.check([self.zpoly(p) >= 0], pgens(p))[0] == 'unsat' and self.check([self.zpoly(p) <= 0], pgens(p))[0] == 'unsat':
                    raise Infeasible()
            raise Undefined('square root of a negative number %s * %s' % (rf[0], [(str(self.zpoly(p)), e, self.psign(p)) for p, e in rf[1].items()]) if DEBUG else 'square root of a negative number')
        return R.rf_mul(out, self.q_sqrt(c))

    def square_root(self, p):
        """(k, q) with p = k q^2 modulo the trigonometric relations, q among the polynomials whose sign was decided"""
        if not self.decpolys or len(p.t) > 40:
            return None
        pg = set(pgens(p))
        for b in self.decpolys:
            if not set(pgens(b)) <= pg:
                continue
            s2 = self.R.pmul(b, b)
            m = next(iter(s2.t))
            if len(s2.t) == len(p.t) and m in p.t:
                k = Fraction(p.t[m]) / Fraction(s2.t[m])
                if k > 0 and not padd(p, s2, -k).t:
                    return k, b
        return None

    def q_sqrt(self, c):
        c = Fraction(c)
        n = c.numerator * c.denominator
        k, odd = 1, {}
        d = 2
        m = n
        while d * d <= m and d < 2000:
            while m % d == 0:
                m //= d
                odd[d] = odd.get(d, 0) + 1
            d += 1
        r = isqrt(m)
        if r * r == m:
            k *= r
        elif m > 1:
            odd[m] = odd.get(m, 0) + 1
        out = Fraction(k, c.denominator)
        rf = (1, {})
        for q, e in odd.items():
            out *= q ** (e // 2)
            if e % 2:
                rf = self.R.rf_mul(rf, self.rf_gen(self.g_sqrt(pconst(q))))
        return self.R.rf_mul((_norm(out), {}), rf)

    # ---- function symbols
    def same(self, a, b):
        """are two RFs / plain keys equal?"""
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a == b:
                return True
            return self.R.rf_sum([a, (-b[0], b[1])])[0] == 0
        return a == b

    def g_fn(self, name, args):
        lst = self.fngen.setdefault((name, len(args)), [])
        for aa, i in lst:
            if all(self.same(x, y) for x, y in zip(aa, args)):
                return i
        i = self.newgen('fn', name, tuple(args))
        lst.append((tuple(args), i))
        deps = set()
        for a in args:
            if isinstance(a, tuple):
                deps |= self.rf_gens(a)
        g = self.R.gens[i]
        g.deps = tuple(deps)
        g.axioms = self.fn_axioms(name, args, i)
        return i

    def zval(self, rf):
        """z3 term equal to the rational function (uses division only for the factored denominators)"""
        num = z3q(rf[0])
        den = None
        for p, e in rf[1].items():
            zp = self.zpoly(p)
            for _ in range(abs(e)):
                if e > 0:
                    num = num * zp
                else:
                    den = zp if den is None else den * zp
        return num, den

    def fn_axioms(self, name, args, i):
        z = self.R.gens[i].z
        if name in ('K', 'Ee'):
            def ax(name=name, args=args, i=i):
                out = []
                pi = self.R.gens[self.g_pi()].z
                out += [pi > z3q('3.141592653589793'), pi < z3q('3.141592653589794')]
                s = self.zrf_sign(args[0])
                if name == 'K':
                    out += [z > 0, z3.Implies(s >= 0, 2 * z >= pi), z3.Implies(s <= 0, 2 * z <= pi)]
                else:
                    out += [z > 0, z3.Implies(s >= 0, 2 * z <= pi), z3.Implies(s <= 0, 2 * z >= pi), z >= 1]
                return out
            return ax
        if name == 'Pi':
            return [z > 0]
        if name in ('floor', 'rint'):
            def ax():
                d = self.rf_add(args[0], self.rf_neg(self.rf_gen(i)))       # argument - integer
                lo, hi = (0, 1) if name == 'floor' else (Fraction(-1, 2), Fraction(1, 2))
                out = []
                for c, s in ((lo, 1), (hi, -1)):
                    r = self.rf_add(d, (-c, {})) if c else d
                    if r[0] == 0:
                        continue
                    q = self.zrf_sign(r)
                    out.append(q >= 0 if s > 0 else q <= 0 if name == 'rint' else q < 0)
                return out + [z3.Or(z >= k, z <= k - 1) for k in (-1, 0, 1, 2)]
            return ax
        if name == 'exp':
            s = lambda: self.zrf_sign(args[0])
            def ax():
                t = s()
                return [z > 0, z3.Implies(t < 0, z < 1), z3.Implies(t > 0, z > 1), z3.Implies(t == 0, z == 1)]
            return ax
        if name == 'cosh':
            return [z >= 1]
        if name == 'sinh':
            def ax():
                t = self.zrf_sign(args[0])
                return [z3.Implies(t < 0, z < 0), z3.Implies(t > 0, z > 0)]
            return ax
        if name == 'arccos':
            pi = self.R.gens[self.g_pi()].z
            return [z >= 0, z <= pi, pi > z3q('3.141592653589793'), pi < z3q('3.141592653589794')]
        if name == 'powq':
            def ax():
                k = Fraction(args[1])
                s = self.zrf_sign(args[0])
                num, den = self.zval(args[0])
                out = [z3.Implies(s > 0, z > 0), z3.Implies(s == 0, z == 0)]
                if k > 0 and den is None:
                    out += [z3.Implies(z3.And(num >= 0, num <= 1), z <= 1), z3.Implies(num >= 1, z >= 1), z3.Implies(num > 1, z > 1),
                            z3.Implies(z3.And(num >= 0, num < 1), z < 1)]
                elif k > 0:
                    d1 = self.R.rf_sum([args[0], (-1, {})])
                    s1 = self.zrf_sign(d1) if d1[0] != 0 else z3.RealVal(0)
                    out += [z3.Implies(z3.And(s >= 0, s1 <= 0), z <= 1), z3.Implies(s1 >= 0, z >= 1),
                            z3.Implies(z3.And(s >= 0, s1 < 0), z < 1), z3.Implies(s1 > 0, z > 1)]
                return out
            return ax
        if name == 'arctan2':
            return []
        if name == 'arctan':
            return []
        return []

    def canon_fn(self, e):
        nm = e.args[0]
        if nm in ('cos', 'sin'):
            c, s = self.cossin(self.canon(e.args[1]))
            return c if nm == 'cos' else s
        args = [self.canon(a) if type(a) is E else a for a in e.args[1:]]
        if nm == 'arctan2':
            y, x = args
            if y[0] == 0 and x[0] == 0:
                return (0, {})
            if y[0] == 0:
                sx = self.decide_rf(x, '<')
                return self.rf_gen(self.g_pi()) if sx else (0, {})
            r2 = self.rf_add(self.R.rf_pow(x, 2), self.R.rf_pow(y, 2))
            if r2[0] == 0 or self.decide_rf(r2, '=='):
                return (0, {})
            # the angle of a parallel vector of the same direction
            for (y1, x1), i in self.fngen.get(('arctan2', 2), []):
                if self.same(y, y1) and self.same(x, x1):
                    return self.rf_gen(i)
                if self.R.rf_sum([self.R.rf_mul(y, x1), self.rf_neg(self.R.rf_mul(x, y1))])[0] == 0:
                    d = self.R.rf_sum([self.R.rf_mul(y, y1), self.R.rf_mul(x, x1)])
                    if d[0] != 0 and self.decide_rf(d, '>'):
                        return self.rf_gen(i)
            return self.rf_gen(self.g_fn('arctan2', args))
        if nm == 'arctan' and args[0][0] == 0:
            return (0, {})
        if nm == 'arccos':
            a = args[0]
            if not a[1]:
                if a[0] == 1:
                    return (0, {})
                if a[0] == -1:
                    return self.rf_gen(self.g_pi())
                if a[0] == 0:
                    return (Fraction(1, 2), {pgen(self.g_pi()): 1})
            # arccos(cos t) = |t| on [-pi, pi]
            if len(a[1]) == 1 and a[0] in (1, -1):
                (p, ex), = a[1].items()
                if ex == 1 and len(p.t) == 1:
                    (m, _), = p.t.items()
                    i = (m.bit_length() - 1) // SH
                    g = self.R.gens[i]
                    if g.kind == 'cos' and g.args and g.args[0] is not None:
                        th = g.args[0]
                        pi = self.rf_gen(self.g_pi())
                        lo = self.decide_rf(self.rf_add(th, pi), '>=')
                        hi = lo and self.decide_rf(self.rf_add(pi, self.rf_neg(th)), '>=')
                        if lo and hi:
                            pos = self.decide_rf(th, '>=')
                            r = th if pos else self.rf_neg(th)
                            return r if a[0] == 1 else self.rf_add(pi, self.rf_neg(r))
        if nm == 'cosh' or nm == 'sinh':
            if args[0][0] == 0:
                return (1, {}) if nm == 'cosh' else (0, {})
            # even / odd
            if args[0][0] < 0:
                i = self.g_fn(nm, [self.rf_neg(args[0])])
                return self.rf_gen(i) if nm == 'cosh' else (-1, {pgen(i): 1})
        if nm == 'exp':
            if args[0][0] == 0:
                return (1, {})
            return self.canon_exp(args[0])
        if nm == 'log' and args[0][0] != 0 and not args[0][1] and args[0][0] == 1:
            return (0, {})
        if nm in ('K', 'Ee') and args[0][0] == 0:
            return (Fraction(1, 2), {pgen(self.g_pi()): 1})
        if nm == 'Pi' and args[0][0] == 0:
            if args[1][0] == 0:
                return (Fraction(1, 2), {pgen(self.g_pi()): 1})
            return self.rf_gen(self.g_fn('K', [args[1]]))
        if nm == 'powq':
            return self.canon_powq(args[0], Fraction(args[1]))
        if nm in ('floor', 'rint') and not args[0][1]:
            v = Fraction(args[0][0])
            return (math.floor(v) if nm == 'floor' else round(v), {})
        return self.rf_gen(self.g_fn(nm, args))

    def canon_powq(self, b, k):
        """b**k, k a fraction: product of powers of the factors when they are positive, whole powers taken out"""
        if b[0] == 0:
            if k < 0:
                raise Undefined('division by zero')
            return (0, {})
        k = Fraction(k)
        c = Fraction(b[0])
        if not b[1] or c < 0 or any(self.psign(p) != '>' for p in b[1]):
            if k < 0:
                return self.R.rf_pow(self.rf_gen(self.g_fn('powq', [b, -k])), -1)
            return self.rf_gen(self.g_fn('powq', [b, k]))
        out = (1, {})
        for base, e in [((b[0], {}), 1)] + [((1, {p: 1}), e) for p, e in b[1].items()]:
            if base == (1, {}):
                continue
            n = e * k
            w = int(n)                                  # towards zero
            f = n - w
            if w:
                out = self.R.rf_mul(out, self.R.rf_pow(base, w))
            if f:
                rt = X._qroot(Fraction(base[0]), f.denominator) if not base[1] else None
                if rt is not None:
                    g = (_norm(rt ** abs(f.numerator)), {})
                elif f.denominator == 2:
                    g = self.rf_sqrt(base)
                else:
                    g = self.rf_gen(self.g_fn('powq', [base, abs(f)]))
                out = self.R.rf_mul(out, g if f > 0 else self.R.rf_pow(g, -1))
        return out

    def canon_exp(self, a):
        """exp of a sum -> product of exps of primitive terms (integer multiples of a common unit)"""
        com = {p: e for p, e in a[1].items() if e < 0}
        num = self.R.expand({p: e for p, e in a[1].items() if e > 0})
        out = (1, {})
        for m, c in sorted(num.t.items()):
            q = Fraction(c) * a[0]
            base = self.R.rf_mul((1, dict(com)), self.R.rf_norm(1, {P({m: 1}): 1}) if m else (1, {}))
            # unit: exp(base/den)
            q = q * base[0]
            base = (1, base[1])
            lst = self.fngen.setdefault(('exp', 1), [])
            hit = None
            for aa, i in lst:
                u = aa[0]
                if u[1] == base[1]:
                    k = q / Fraction(u[0])
                    if k.denominator == 1:
                        hit = (i, int(k))
                        break
            if hit is None:
                # introduce exp(|q| base)
                unit = (_norm(abs(q)), base[1])
                i = self.g_fn('exp', [unit])
                hit = (i, 1 if q > 0 else -1)
            out = self.R.rf_mul(out, self.R.rf_norm(1, {pgen(hit[0]): hit[1]}))
        return out

    # ---- trigonometry
    def cossin(self, a):
        """(cos, sin) of an angle given as RF"""
        if a[0] == 0:
            return (1, {}), (0, {})
        neg = {p: e for p, e in a[1].items() if e < 0}
        num = self.R.expand({p: e for p, e in a[1].items() if e > 0})
        acc = None
        pim = (1 << (SH * self.g_pi()))
        for m, c in sorted(num.t.items()):
            q = Fraction(c) * a[0]
            if m == pim and not neg:
                cs = self.cs_pi(q)
            elif not neg and q.denominator == 1 and q % 2 == 0 and self.turns(m):
                continue
            else:
                atom = self.R.rf_mul((1, dict(neg)), self.R.rf_norm(1, self._mono_f(m)))
                q = q * Fraction(atom[0])
                atom = (1, atom[1])
                unit = Fraction(1)
                if q.denominator != 1:
                    unit = Fraction(1, q.denominator)
                n = q / unit
                cs = self.cs_atom(atom, unit)
                cs = self.cs_mult(cs, int(n))
            acc = cs if acc is None else self.cs_add(acc, cs)
        return ((1, {}), (0, {})) if acc is None else acc

    def turns(self, m):
        """the monomial is pi times whole numbers"""
        g = list(gens_of_mono(m))
        return (self.g_pi(), 1) in g and all(i == self.g_pi() or self.R.gens[i].kind == 'fn' and self.R.gens[i].name in ('floor', 'rint') for i, _ in g)

    def _mono_f(self, m):
        if m == 0:
            return {}
        return {pgen(i): e for i, e in gens_of_mono(m)}

    def cs_add(self, a, b):
        R = self.R
        c = R.rf_sum([R.rf_mul(a[0], b[0]), self.rf_neg(R.rf_mul(a[1], b[1]))])
        s = R.rf_sum([R.rf_mul(a[1], b[0]), R.rf_mul(a[0], b[1])])
        return c, s

    def cs_mult(self, cs, n):
        if n < 0:
            c, s = self.cs_mult(cs, -n)
            return c, self.rf_neg(s)
        r = ((1, {}), (0, {}))
        for _ in range(n):
            r = self.cs_add(r, cs)
        return r

    def cs_pi(self, q):
        q = q % 2
        d = q.denominator
        if d in (1, 2, 3, 4, 6, 12):
            s2 = lambda: self.q_sqrt(2)
            s3 = lambda: self.q_sqrt(3)
            R = self.R
            h = (Fraction(1, 2), {})
            base = {1: lambda: ((-1, {}), (0, {})),
                    2: lambda: ((0, {}), (1, {})),
                    3: lambda: (h, R.rf_mul(h, s3())),
                    4: lambda: (R.rf_mul(h, s2()), R.rf_mul(h, s2())),
                    6: lambda: (R.rf_mul(h, s3()), h)}
            if d == 12:
                u = self.cs_add(base[3](), self.cs_mult(base[4](), -1))
            else:
                u = base[d]()
            return self.cs_mult(u, int(q * d))
        return self.cs_mult(self.cs_gens(('pi', d), 'pi/%d' % d, None), int(q * d))

    def cs_gens(self, key, name, angle):
        t = self.fngen.setdefault('cs', {})
        if key not in t:
            ci = self.newgen('cos', 'cos[%s]' % name, (angle,))
            rule = padd(PONE, self.R.pmul(pgen(ci), pgen(ci)), -1)
            si = self.newgen('sin', 'sin[%s]' % name, (angle,), rule=rule)
            c, s = self.R.gens[ci], self.R.gens[si]
            axs = [c.z * c.z + s.z * s.z == 1, c.z <= 1, c.z >= -1, s.z <= 1, s.z >= -1]
            if key[0] == 'pi':
                import mpmath
                a = mpmath.pi / key[1]
                for z, v in ((c.z, mpmath.cos(a)), (s.z, mpmath.sin(a))):
                    v = Fraction(str(mpmath.nstr(v, 14)))
                    axs += [z > z3q(v - Fraction(1, 10**12)), z < z3q(v + Fraction(1, 10**12))]
            elif angle is not None:
                # sign links between the angle and its sine, on [-pi, pi]
                num, den = self.zval(angle)
                if den is None:
                    pi = self.R.gens[self.g_pi()]
                    axs += pi.axioms
                    axs += [z3.Implies(z3.And(num > 0, num < pi.z), s.z > 0), z3.Implies(z3.And(num < 0, num > -pi.z), s.z < 0),
                            z3.Implies(num == 0, c.z == 1),
                            z3.Implies(z3.And(2 * num > -pi.z, 2 * num < pi.z), c.z > 0)]
                    c.deps = s.deps = tuple(self.rf_gens(angle) | {self.g_pi(), ci, si})
            c.axioms = s.axioms = axs
            c.deps = tuple(set(c.deps) | {si})
            s.deps = tuple(set(s.deps) | {ci})
            t[key] = (ci, si)
        ci, si = t[key]
        return self.rf_gen(ci), self.rf_gen(si)

    def cs_atom(self, atom, unit):
        R = self.R
        if unit == 1 and len(atom[1]) == 1:
            (p, e), = atom[1].items()
            if e == 1 and len(p.t) == 1:
                (m, _), = p.t.items()
                i = (m.bit_length() - 1) // SH
                g = R.gens[i]
                if g.kind == 'fn' and g.name == 'arctan2':
                    y, x = g.args
                    rho = self.rf_sqrt(self.rf_add(R.rf_pow(x, 2), R.rf_pow(y, 2)))
                    ri = R.rf_pow(rho, -1)
                    return R.rf_mul(x, ri), R.rf_mul(y, ri)
                if g.kind == 'fn' and g.name == 'arctan':
                    x = g.args[0]
                    ri = R.rf_pow(self.rf_sqrt(self.rf_add(R.rf_pow(x, 2), (1, {}))), -1)
                    return ri, R.rf_mul(x, ri)
                if g.kind == 'fn' and g.name == 'arccos':
                    x = g.args[0]
                    one_minus = self.rf_add((1, {}), self.rf_neg(R.rf_pow(x, 2)))
                    return x, (self.rf_sqrt(one_minus) if one_minus[0] != 0 else (0, {}))
        key = ('a', unit, frozenset(atom[1].items()))
        if atom[0] == 1 and len(atom[1]) == 1:
            name = '%s' % '*'.join(R.gens[i].name for i in sorted(self.rf_gens(atom)))
        else:
            name = 'ang'
        return self.cs_gens(key, name, R.rf_mul(atom, (unit, {})))

    # ------------------------------------------------------------ decisions
    def rf_den_check(self, rf):
        """True if no denominator factor can vanish on the path"""
        for p, e in rf[1].items():
            if e < 0:
                s = self.psign(p)
                if s in ('>', '<'):
                    continue
                if self.check([self.zpoly(p) == 0], pgens(p))[0] == 'unsat':
                    continue
                return False
        return True

    # loops whose test depends on the numbers: at most `unroll` decisions at one place of one call
    def count_decision(self):
        f = sys._getframe(2)
        while f is not None and not f.f_globals.get('__name__', '').startswith('swiz.'):
            f = f.f_back
        if f is None:
            return
        k = (f, f.f_lineno)
        self.places[k] = n = self.places.get(k, 0) + 1
        if n > self.unroll:
            self.cut += 1
            raise Infeasible()

    def unknown(self, stem):
        """a value nothing is known of"""
        self.n_unknown = getattr(self, 'n_unknown', 0) + 1
        d = X.var('%s%d' % (stem, self.n_unknown))
        self.vars[d.args[0]] = d
        self.g_var(d.args[0])
        return d

    def havoc_abs(self, a):
        """|a| as an unknown positive number of its own (convergence tests: every stopping stage is explored)"""
        for x, d in self.havoc:
            if x is a or x is X.neg(a):
                return d
        d = X.var('change%d' % len(self.havoc))
        self.vars[d.args[0]] = d
        self.g_var(d.args[0])
        self.assume(d, '>')
        self.havoc.append((a, d))
        return d

    def decide(self, a, b, rel):
        key = (a.id, b.id, rel)
        if key in self.deccache:
            return self.deccache[key]
        try:
            rf = self.rf_add(self.canon(a), self.rf_neg(self.canon(b)))
        except Undefined:
            # comparison with nan is false
            self.deccache[key] = rel == '!='
            return rel == '!='
        r = self.decide_rf(rf, rel)
        self.deccache[key] = r
        self.keep += [a, b]
        self.product_lemma(a, b, rel if r else {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}[rel])
        return r

    def product_lemma(self, a, b, rel):
        """a product that is known not to vanish has no vanishing factor (redundant facts that help the solver)"""
        try:
            ra, rb = self.canon(a), self.canon(b)
        except Undefined:
            return
        if not ra[1] and rb[1]:
            ra, rb, rel = rb, ra, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(rel, rel)
        if rb[1] or len([1 for e in ra[1].values() if e > 0]) < 2:
            return
        c = rb[0]
        s = 0
        if (rel == '>' and c >= 0) or (rel == '>=' and c > 0):
            s = 1
        elif (rel == '<' and c <= 0) or (rel == '<=' and c < 0):
            s = -1
        elif not (rel == '!=' and c == 0) and not (rel == '==' and c != 0):
            return
        if ra[0] < 0:
            s = -s
        unknown = []
        for p, e in ra[1].items():
            if e % 2:
                k = self.psign(p) if len(p.t) == 1 else (self.signs.get(p) or (None,))[0]
                if k in ('>', '>='):
                    continue
                if k in ('<', '<='):
                    s = -s
                    continue
                unknown.append(p)
        for p, e in ra[1].items():
            if e <= 0:
                continue
            if s and [p] == unknown:
                zp = self.zpoly(p)
                self.add_constraint(zp > 0 if s > 0 else zp < 0, pgens(p), ((1, {p: 1}), '>' if s > 0 else '<'))
            else:
                self.add_constraint(self.zpoly(p) != 0, pgens(p), ((1, {p: 1}), '!='))

    def decide_rf(self, rf, rel):
        if rel == '!=':
            return not self.decide_rf(rf, '==')
        if rel == '>=':
            return not self.decide_rf(rf, '<')
        if rel == '<=':
            return not self.decide_rf(rf, '>')
        if not rf[1]:
            c = rf[0]
            return {'<': c < 0, '>': c > 0, '==': c == 0}[rel]
        key = (rf[0] > 0, frozenset(rf[1].items()), rel)
        if key in self.deccache:
            return self.deccache[key]
        # sign of the product
        sg = {'<': -1, '>': 1}
        s = 1 if rf[0] > 0 else -1
        if not self.rf_den_check(rf):
            # a vanishing denominator: split
            for p, e in rf[1].items():
                if e < 0 and self.psign(p) not in ('>', '<'):
                    if self.fork(self.zpoly(p) == 0, self.zpoly(p) != 0, pgens(p), (1, {p: 1}), '=='):
                        raise Undefined('division by zero in a comparison')
        for p in rf[1]:
            if 1 < len(p.t) <= 12 and any(self.R.gens[i].kind == 'cos' or self.R.gens[i].kind == 'sin' for i in pgens(p)):
                self.decpolys[p] = None
        zs = self.zrf_sign(rf)
        g = self.rf_gens(rf)
        if rel == '==':
            zn = self.zrf_num(rf)
            pos, neg = zn == 0, zn != 0
        elif rel == '<':
            pos, neg = zs < 0, zs >= 0
        else:
            pos, neg = zs > 0, zs <= 0
        r = self.fork(pos, neg, g, rf, rel)
        self.deccache[key] = r
        return r

    def nudge(self, rf, rel):
        """try to move a sample of the path onto the condition; keeps it in the pool when that works"""
        names = [n for n, i in self.vargen.items() if i in self.closure(self.rf_gens(rf)) and self.R.gens[i].kind == 'var']
        tries = [(n,) for n in names] + ([tuple(names)] if 1 < len(names) <= 3 else []) + \
                [(a, b) for k, a in enumerate(names) for b in names[k + 1:]][:6]
        for q in self.pool[:3]:
            base = dict(q.vals)
            for t in tries:
                cand = [{n: 0.0 for n in t}]
                if len(t) == 1 and len(rf[1]) <= 2:
                    # root of the condition in one variable
                    for p, e in rf[1].items():
                        x0 = q.poly(p)[0]
                        d = Point(self, q.seed, dict(base, **{t[0]: base.get(t[0], 0) + 1}))
                        d2 = Point(self, q.seed, dict(base, **{t[0]: base.get(t[0], 0) + 2}))
                        x1, x2 = d.poly(p)[0], d2.poly(p)[0]
                        if x1 == x1 and x2 == x2 and x1 != x0 and abs(x2 - 2 * x1 + x0) < 1e-9 * (abs(x0) + abs(x1)):
                            cand.append({t[0]: base.get(t[0], 0) - x0 / (x1 - x0)})
                for c in cand:
                    pt = Point(self, q.seed, dict(base, **c))
                    if pt.holds(rf, rel) and all(pt.holds(*h) for h in self.holdl):
                        self.pool.append(pt)
                        self.shared.append(dict(pt.fixed))
                        return True
        return False

    def can(self, z, gens, rf, rel):
        """'sat' / 'unsat' / 'unknown' ; samples of the path answer first"""
        if any(q.holds(rf, rel) for q in self.pool):
            return 'sat'
        if self.pool and len(self.pool) < 4 * NPOOL and self.nudge(rf, rel):
            return 'sat'
        return self.check([z], gens)[0]

    def fork(self, pos, neg, gens, rf, rel):
        STATS.decisions += 1
        nrel = {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}[rel]
        rp = self.can(pos, gens, rf, rel)
        rn = self.can(neg, gens, rf, nrel) if rp != 'unsat' else 'sat?'
        if rp == 'unsat' and rn == 'unsat':
            raise Infeasible()
        if rp == 'unsat':
            self.add_constraint(neg, gens, (rf, nrel))
            return False
        if rn == 'unsat':
            self.add_constraint(pos, gens, (rf, rel))
            return True
        if self.unroll:
            self.count_decision()
        k = len(self.trace)
        if k >= self.maxdec:
            raise Unsupported('too many decisions on one path')
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = True
            self.pending.append(self.trace + [False])
        self.trace.append(d)
        self.add_constraint(pos if d else neg, gens, (rf, rel if d else nrel))
        return d

    def assume(self, a, rel, b=X.ZERO):
        rf = self.rf_add(self.canon(X.lift(a)), self.rf_neg(self.canon(X.lift(b))))
        if not rf[1]:
            c = rf[0]
            if not {'<': c < 0, '>': c > 0, '==': c == 0, '!=': c != 0, '<=': c <= 0, '>=': c >= 0}[rel]:
                raise Infeasible()
            return
        g = self.rf_gens(rf)
        zs = self.zrf_sign(rf)
        zn = self.zrf_num(rf)
        z = {'<': zs < 0, '>': zs > 0, '==': zn == 0, '!=': zn != 0, '<=': zs <= 0, '>=': zs >= 0}[rel]
        self.add_constraint(z, g, (rf, rel))
        if b is not X.ZERO:
            self.product_lemma(X.lift(a), X.lift(b), rel)

    def model(self, extra=(), gens=(), timeout=None, seed=0):
        return self.check(list(extra), gens, timeout, want_model=True, seed=seed)

    # ------------------------------------------------------------ definedness
    def undefined_conditions(self, e):
        """yield (description, z3 condition that makes e undefined, gens) over the expression DAG"""
        for n in X.postorder([e]):
            if n.id in self.known_ok:
                continue
            if n.op in ('nan', 'inf', 'sinf'):
                yield n, n.op, z3.BoolVal(True), (), None
                continue
            if n.op == 'pow':
                b, k = n.args
                if k.denominator == 1 and k < 0:
                    rf = self.canon(b)
                    if rf[0] == 0:
                        yield n, 'division by zero', z3.BoolVal(True), (), None
                        continue
                    for p, ee in sorted(rf[1].items(), key=lambda x: len(x[0].t)):
                        if ee > 0 and self.psign(p) not in ('>', '<'):
                            yield n, 'division by zero', self.zpoly(p) == 0, pgens(p), ((1, {p: 1}), '!=')
                elif k.denominator != 1:
                    rf = self.canon(b)
                    if rf[0] == 0:
                        if k < 0:
                            yield n, 'division by zero', z3.BoolVal(True), (), None
                        continue
                    if not rf[1]:
                        if rf[0] < 0:
                            yield n, 'root of a negative number', z3.BoolVal(True), (), None
                        continue
                    if rf[0] < 0 or any(self.psign(p) not in ('>',) for p in rf[1]):
                        zs = self.zrf_sign(rf)
                        yield n, 'root of a negative number' if k > 0 else 'division by zero / negative root', \
                            (zs < 0) if k > 0 else (zs <= 0), self.rf_gens(rf), (rf, '>=' if k > 0 else '>')
            elif n.op == 'fn':
                nm = n.args[0]
                if nm in ('K', 'Ee'):
                    rf = self.rf_add((1, {}), self.rf_neg(self.canon(n.args[1])))
                    if rf[0] == 0:
                        if nm == 'K':
                            yield n, 'K(1)', z3.BoolVal(True), (), None
                        continue
                    zs = self.zrf_sign(rf)
                    yield n, nm + ' modulus', (zs <= 0) if nm == 'K' else (zs < 0), self.rf_gens(rf), (rf, '>' if nm == 'K' else '>=')
                elif nm == 'Pi':
                    for a in n.args[1:]:
                        rf = self.rf_add((1, {}), self.rf_neg(self.canon(a)))
                        if rf[0] == 0:
                            yield n, 'Pi(1)', z3.BoolVal(True), (), None
                            continue
                        yield n, 'Pi argument', self.zrf_sign(rf) <= 0, self.rf_gens(rf), (rf, '>')
                elif nm == 'log':
                    rf = self.canon(n.args[1])
                    if rf[0] == 0:
                        yield n, 'log(0)', z3.BoolVal(True), (), None
                        continue
                    yield n, 'log of a non positive number', self.zrf_sign(rf) <= 0, self.rf_gens(rf), (rf, '>')
                elif nm == 'arccos':
                    for s in (1, -1):
                        a = self.canon(n.args[1])
                        rf = self.rf_add((1, {}), (s * a[0], a[1]))
                        if rf[0] == 0:
                            continue
                        yield n, 'arccos domain', self.zrf_sign(rf) < 0, self.rf_gens(rf), (rf, '>=')
            self.known_ok.add(n.id)
