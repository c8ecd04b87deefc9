"""Harness machinery: one harness function is run symbolically (all values, every path) and, for replay,
concretely on the unmodified repository code."""
import contextlib
import importlib
import io
import json
import math
import os
import random
import sys
import threading
import time
import traceback
import warnings
from fractions import Fraction
import numpy as np

from . import expr as X
from .expr import E, Undefined, Unsupported, lift
from .poly import Blowup, gens_of_mono, SH
from . import ctx as CT
from .ctx import Context, Infeasible, z3q, STATS
from . import loader as L
from . import npshim as S
import z3

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')


class Case:
    """one harness: fn(M) ; opts understood: overrides, assume_defined, timeout, max_paths, budget, known"""

    def __init__(self, name, fn, bounds='', **opts):
        self.name, self.fn, self.bounds, self.opts = name, fn, bounds, opts


class SkipPath(Exception):
    pass


class Violation(Exception):
    pass


class FoundViolation(BaseException):
    def __init__(self, rec):
        self.rec = rec


# ------------------------------------------------------------------ function / line coverage of the encoding
class Cov:
    tool = 4
    funcs = set()
    lines = set()
    on = False

    @classmethod
    def start(cls):
        if cls.on:
            return
        mon = sys.monitoring
        try:
            mon.use_tool_id(cls.tool, 'symwiz')
        except ValueError:
            return
        ev = mon.events
        root = os.path.join(L.REPO, '')

        def on_line(code, line):
            if code.co_filename.startswith(root):
                cls.lines.add((code.co_filename[len(root):], line))
                if code.co_name != '<module>':
                    cls.funcs.add(code.co_filename[len(root):].replace('wiz/', '').replace('.py', '') + '.' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(cls.tool, ev.LINE, on_line)
        mon.set_events(cls.tool, ev.LINE)
        cls.on = True

    @classmethod
    def stop(cls):
        if cls.on:
            sys.monitoring.set_events(cls.tool, 0)
            sys.monitoring.free_tool_id(cls.tool)
            cls.on = False


_real = {}


def real_wiz():
    """the unmodified implementation"""
    if 'pkg' not in _real:
        if L.REPO not in sys.path or sys.path[0] != L.REPO:
            sys.path.insert(0, L.REPO)
        for k in [k for k in sys.modules if k == 'wiz' or k.startswith('wiz.')]:
            del sys.modules[k]

        class Pkg:
            def __getattr__(self, n):
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        m = importlib.import_module('wiz.' + n)
                    except ImportError:
                        p = os.path.join(L.REPO, 'examples', n + '.py')
                        if not os.path.exists(p):
                            raise
                        import importlib.util as iu
                        sp = iu.spec_from_file_location('wizex_' + n, p)
                        m = iu.module_from_spec(sp)
                        sp.loader.exec_module(m)
                setattr(self, n, m)
                return m
        _real['pkg'] = Pkg()
    return _real['pkg']


def _flat(v):
    """-> (shape, list of scalars)"""
    if isinstance(v, np.ndarray):
        return v.shape, list(v.reshape(-1))
    if isinstance(v, (list, tuple)):
        a = S.asarray(v) if any(isinstance(x, E) for x in v) else np.asarray(v)
        return a.shape, list(a.reshape(-1))
    return (), [v]


# ------------------------------------------------------------------ symbolic side
class SymM:
    sym = True

    def __init__(self, case, ctx, pkg, run):
        self.case, self.ctx, self.wiz, self.run = case, ctx, pkg, run
        self.nice = ctx.nice
        self.values = []      # (label, a, b) scalars for the translator cross-check
        self.np = S.NP
        self.pi = X.PI
        self.seed = SEED
        self.thorough = run.tier == 'thorough'

    # ---- inputs
    def var(self, name, nice=(-2, 3)):
        v = X.var(name)
        self.ctx.vars[name] = v
        self.nice[name] = nice
        self.ctx.g_var(name)
        return v

    def pos(self, name, nice=(0.5, 3)):
        v = self.var(name, nice)
        self.ctx.assume(v, '>')
        return v

    def root(self, name, square, nice=(-1, 1)):
        """an unknown of either sign whose square is the given polynomial expression"""
        v = X.var(name)
        self.ctx.vars[name] = v
        self.nice[name] = nice
        self.ctx.g_root(name, lift(square))
        return v

    def between(self, name, lo, hi, nice=None):
        v = self.var(name, nice or (lo, hi))
        self.ctx.assume(v, '>=', S.obj(lo) if not isinstance(lo, E) else lo)
        self.ctx.assume(v, '<=', S.obj(hi) if not isinstance(hi, E) else hi)
        return v

    def q(self, a, b=1): return X.const(Fraction(a) / Fraction(b))

    def assume(self, a, rel, b=0):
        self.ctx.assume(a, rel, b)

    def split(self, a, rel, b=0):
        """case distinction on the path"""
        return bool(X._cmp(lift(a), lift(b), rel))

    def arr(self, v, shape=None, integer=False):
        a = S.asarray(v)
        if integer:
            a = a.view(S.IntA)
        return a.reshape(shape) if shape is not None else a

    def nparr(self, v): return S.asarray(v)

    def copy(self, a): return a.copy()

    # ---- obligations
    def _ob(self, label, z, gens, what):
        """prove that z (a z3 condition meaning 'violated') is impossible on this path"""
        r = self.run
        r.obligations += 1
        if z is None:
            r.discharged += 1
            return
        res, _ = self.ctx.check([z], gens, timeout=r.timeout)
        if res == 'unsat':
            r.discharged += 1
            return
        self._fail(label, z, gens, what, res)

    def _fail(self, label, z, gens, what, res):
        rec = find_counterexample(self, label, z, gens, what, res)
        if rec:
            raise FoundViolation(rec)
        self.run.inconclusive.append('%s: %s (%s, solver said %s, no reproducing model)' % (self.case.name, label, what, res))

    def _defined(self, label, e):
        ctx = self.ctx
        if self.case.opts.get('assume_defined'):
            for n, why, z, g, num in ctx.undefined_conditions(e):
                if z3.is_true(z):
                    raise Infeasible()
                ctx.add_constraint(z3.Not(z), g, num)
            return True
        for n, why, z, g, num in ctx.undefined_conditions(e):
            self.run.obligations += 1
            res, _ = ctx.check([z], g, timeout=self.run.timeout)
            if res == 'unsat':
                self.run.discharged += 1
                continue
            self._fail(label, z, g, 'undefined value: ' + why, res)
            return False
        return True

    def defined(self, label, v):
        sh, vs = _flat(v)
        for i, e in enumerate(vs):
            e = lift(e)
            self.values.append((label, e, X.ZERO))
            self.run.obligations += 1
            if self._defined('%s[%d] finite' % (label, i), e):
                self.run.discharged += 1

    def shape(self, label, v, shape):
        sh = np.shape(v) if not isinstance(v, E) else ()
        self.true(label + ' shape %s == %s' % (sh, tuple(shape)), tuple(sh) == tuple(shape))

    def true(self, label, b):
        self.run.obligations += 1
        if bool(b):
            self.run.discharged += 1
        else:
            self._fail(label, z3.BoolVal(True), (), 'false on this path', 'sat')

    def repeats(self, n):
        """one arbitrary instance in the encoding; n instances when a model is replayed on the real code,
        for relations whose instances only rounding tells apart"""
        yield 0

    def eq(self, label, a, b=0, scale=None, fd=False, tol=None, exact=False):
        sa, va = _flat(a)
        sb, vb = _flat(b)
        if sa != sb:
            if len(vb) == 1:
                vb = vb * len(va)
            elif len(va) == 1:
                va = va * len(vb)
            elif len(va) != len(vb):
                self.true(label + ' shapes %s %s' % (sa, sb), False)
                return
        for i, (x, y) in enumerate(zip(va, vb)):
            lb = label if len(va) == 1 else '%s[%d]' % (label, i)
            self._eq1(lb, lift(x), lift(y), fd)

    def _eq1(self, label, x, y, fd):
        r, ctx = self.run, self.ctx
        self.values.append((label, x, y) if not fd else (label, None, None))
        lazy = self.case.opts.get('assume_defined')
        if x.op in ('nan', 'inf', 'sinf') or y.op in ('nan', 'inf', 'sinf'):
            if lazy:
                raise Infeasible()
            self.true(label + ' finite', False)
            return
        if not lazy and not (self._defined(label, x) and self._defined(label, y)):
            return
        r.obligations += 1
        if x is y:
            # the same term of the encoding on both sides
            r.discharged += 1
            r.same_term += 1
            return
        try:
            # step 1: both sides canonicalised, difference left to the solver unexpanded
            ca, cb = ctx.canon(x), ctx.canon(y)
        except Undefined:
            if lazy:
                raise Infeasible()
            self._fail(label, z3.BoolVal(True), (), 'undefined', 'sat')
            return
        if self._differ(ca, cb) == 'unsat' or lazy and self._lazy_defined(label, x, y) and self._differ(ca, cb) == 'unsat':
            r.discharged += 1
            return
        self._fail(label, self.zd[0], self.zd[1], 'values differ', self.zd[2])

    def _lazy_defined(self, label, x, y):
        """only now restrict the path to defined values"""
        n = len(self.ctx.cons)
        self._defined(label, x)
        self._defined(label, y)
        return len(self.ctx.cons) > n

    def _differ(self, ca, cb):
        r, ctx = self.run, self.ctx
        z, gens = neq_query(ctx, ca, cb)
        if z is None:
            d = ctx.rf_add(ca, ctx.rf_neg(cb))
            z, gens = ctx.zrf_num(d) != 0, ctx.rf_gens(d)
            if d[0] == 0:
                z = z3.RealVal(0) != 0
        res, _ = ctx.check([z], gens, timeout=min(500, r.timeout))
        if res != 'unsat':
            # step 2: reduced numerator
            d = ctx.rf_add(ca, ctx.rf_neg(cb))
            if d[0] == 0:
                res, _ = ctx.check([z3.RealVal(0) != 0], ())
            else:
                if res == 'unknown':
                    res, _ = ctx.check([z], gens, timeout=min(2500, r.timeout))
                if res != 'unsat':
                    z, gens = ctx.zrf_num(d) != 0, ctx.rf_gens(d)
                    res, _ = ctx.check([z], gens, timeout=r.timeout)
        self.zd = (z, gens, res)
        return res

    def _rel(self, label, a, b, bad):
        sa, va = _flat(a)
        sb, vb = _flat(b)
        if len(vb) == 1:
            vb = vb * len(va)
        for i, (x, y) in enumerate(zip(va, vb)):
            x, y = lift(x), lift(y)
            lb = '%s[%d]' % (label, i)
            self.values.append((lb, x, y))
            if x.op in ('nan', 'inf', 'sinf') or y.op in ('nan', 'inf', 'sinf'):
                self.true(lb + ' finite', False)
                continue
            if not (self._defined(lb, x) and self._defined(lb, y)):
                continue
            d = self.ctx.rf_add(self.ctx.canon(x), self.ctx.rf_neg(self.ctx.canon(y)))
            zs = self.ctx.zrf_sign(d) if d[0] != 0 else z3.RealVal(0)
            z = {'<': zs < 0, '<=': zs <= 0}[bad]
            self._ob(lb, z, self.ctx.rf_gens(d), 'inequality')

    def ge(self, label, a, b=0, tol=None): self._rel(label, a, b, '<')
    def le(self, label, a, b=0, tol=None): self._rel(label, b, a, '<')
    def gt(self, label, a, b=0, tol=None): self._rel(label, a, b, '<=')
    def lt(self, label, a, b=0, tol=None): self._rel(label, b, a, '<=')

    def raises(self, label, excs, f):
        self.run.obligations += 1
        try:
            f()
        except excs:
            self.run.discharged += 1
            return
        except (Unsupported, Undefined, Blowup):
            raise
        except Exception as ex:
            self._fail(label, z3.BoolVal(True), (), 'raised %r' % ex, 'sat')
            return
        self._fail(label, z3.BoolVal(True), (), 'did not raise', 'sat')

    def quiet(self, f):
        return f()

    # ---- derivatives
    def grad(self, f, xs):
        """outputs of f(*xs) (tuple of arrays/scalars) and their partial derivatives d[out][k]"""
        out = f(*xs)
        res = []
        for o in out:
            sh, vs = _flat(o)
            row = []
            for x in xs:
                memo = {}
                dv = [X.diff(lift(v), x, memo) for v in vs]
                if sh == ():
                    row.append(dv[0])
                else:
                    a = np.empty(len(dv), dtype=object)
                    for i, d in enumerate(dv):
                        a[i] = d
                    row.append(a.reshape(sh))
            res.append(row)
        return out, res


def _zrf(ctx, rf, skip):
    """unexpanded z3 product of the positive-exponent factors of rf, leaving out common `skip` exponents"""
    t = z3q(rf[0])
    for p, e in rf[1].items():
        k = e - skip.get(p, 0)
        if k > 0:
            zp = ctx.zpoly(p)
            for _ in range(k):
                t = t * zp
    return t


def neq_query(ctx, a, b):
    """z3 condition a != b with the cross-multiplied sides left unexpanded (denominators are non zero by definedness)"""
    if a[0] == 0 and b[0] == 0:
        return z3.RealVal(0) != z3.RealVal(0), set()
    if a[0] == 0 or b[0] == 0:
        r = b if a[0] == 0 else a
        return ctx.zrf_num(r) != 0, ctx.rf_gens(r)
    com, rem = ctx.R.split_common([a, b])
    if rem[0] == rem[1]:
        return z3.RealVal(0) != z3.RealVal(0), set()
    n = sum(len(p.t) * e for _, d in rem for p, e in d.items()) + sum(len(p.t) for p, e in com.items() if e > 0)
    if n > 3000:
        return None, None
    t = []
    for c, d in rem:
        x = z3q(c)
        for p, e in d.items():
            zp = ctx.zpoly(p)
            for _ in range(e):
                x = x * zp
        t.append(x)
    cm = z3.RealVal(1)
    for p, e in com.items():
        if e > 0:
            cm = cm * ctx.zpoly(p)
    return cm * (t[0] - t[1]) != 0, ctx.rf_gens(a) | ctx.rf_gens(b)


# ------------------------------------------------------------------ models and replay
def box_model(ctx, nice, extra, gens, rng, tmo=3000, spread=0.12, total=12):
    """a model of path + extra, pulled towards a random point of the nice box"""
    t0 = time.time()
    g = set(gens) | ctx.used | set(ctx.vargen.values())
    base = list(ctx.cons) + ctx.axioms(g) + list(extra)
    names = list(nice)
    rng.shuffle(names)
    cur = []
    s = z3.SolverFor('QF_NRA')
    # one shot with everything pinned in the random box first
    allc = []
    tgt = {}
    for n in names:
        lo, hi = float(nice[n][0]), float(nice[n][1])
        w = (hi - lo) * spread
        t = rng.uniform(lo, hi)
        tgt[n] = (max(lo, t - w), min(hi, t + w))
        z = z3.Real(n)
        allc.append((n, z3.And(z >= z3q(repr(round(tgt[n][0], 4))), z <= z3q(repr(round(tgt[n][1], 4))))))
    r, m = CT.run_query(base + [c for _, c in allc], tmo, True)
    if r != 'sat':
        okc = []
        for n, c in allc:
            if time.time() - t0 > total:
                break
            r, m2 = CT.run_query(base + okc + [c], min(tmo, 1500), True)
            if r == 'sat':
                okc.append(c)
                m = m2
            else:
                lo, hi = nice[n]
                z = z3.Real(n)
                c2 = z3.And(z >= z3q(repr(float(lo))), z <= z3q(repr(float(hi))))
                r, m2 = CT.run_query(base + okc + [c2], min(tmo, 1500), True)
                if r == 'sat':
                    okc.append(c2)
                    m = m2
        if m is None:
            r, m = CT.run_query(base, tmo, True)
    return model_values(m, nice) if m is not None else None


def pool_values(ctx, nice):
    """samples that satisfy every constraint of the path"""
    out = []
    for p in ctx.pool:
        for i in ctx.vargen.values():
            p.gen(i)
        v = {n: p.var(n) for n in nice}
        if all(x == x for x in v.values()):
            out.append({n: Fraction(x) for n, x in v.items()})
    return out


def _num(v):
    if v is None:
        return None
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def model_values(m, nice):
    out = {}
    for n in nice:
        v = _num(m.eval(z3.Real(n), model_completion=True))
        out[n] = v if v is not None else Fraction(0)
    return out


def find_counterexample(M, label, z, gens, what, res):
    """solver models of the violated obligation, replayed on the real code"""
    ctx = M.ctx
    rng = random.Random('%s/%s/%d' % (M.case.name, label, SEED))
    tried = []
    t0 = time.time()
    pool = pool_values(ctx, M.nice)
    for k in range(28):
        if time.time() - t0 > 40:
            break
        if k % 3 == 1 and k // 3 < len(pool) or not pool and False:
            vals = pool[k // 3]
        elif k > 12 and k - 9 < len(pool):
            vals = pool[k - 9]
        elif k <= 12:
            extra = [z] if k % 2 == 0 and not z3.is_true(z) else []
            vals = box_model(ctx, M.nice, extra, gens, rng, tmo=2500 if k < 4 else 1200)
        else:
            break
        if vals is None:
            continue
        if vals in tried:
            continue
        tried.append(vals)
        fails, _, exc = concrete_run(M.case, vals, M.run.tier)
        if fails:
            rec = {'case': M.case.name, 'label': label, 'what': what, 'solver': res,
                   'values': {n: '%d/%d' % (v.numerator, v.denominator) for n, v in vals.items()},
                   'floats': {n: float(v) for n, v in vals.items()},
                   'failures': fails[:8], 'tier': M.run.tier, 'models_tried': len(tried)}
            return rec
    return None


class ConM:
    sym = False
    witness = False

    def __init__(self, case, vals, tier):
        self.case, self.vals = case, vals
        self.fails = []
        self.fdok = case.opts.get('fdok', False)
        self.lazy = case.opts.get('assume_defined')
        self.stubbed = bool(case.opts.get('overrides'))
        self.values = []
        self.wiz = real_wiz()
        self.np = np
        self.pi = np.pi
        self.seed = SEED
        self.thorough = tier == 'thorough'

    def var(self, name, nice=None):
        v = self.vals[name] if name in self.vals else Fraction(1)
        return np.float64(float(v))
    pos = var

    def root(self, name, square, nice=None):
        # sign of the model, magnitude recomputed in floating point
        v = self.var(name)
        return np.float64(math.copysign(math.sqrt(max(0.0, float(square))), v))

    def between(self, name, lo, hi, nice=None): return self.var(name)
    def q(self, a, b=1): return np.float64(float(Fraction(a) / Fraction(b)))

    def assume(self, a, rel, b=0):
        a, b = float(a), float(b)
        e = 1e-12 * max(1.0, abs(a), abs(b))
        ok = {'<': a < b + e, '<=': a <= b + e, '>': a > b - e, '>=': a >= b - e, '==': abs(a - b) <= 1e3 * e, '!=': a != b}[rel]
        if not ok:
            raise SkipPath()

    def split(self, a, rel, b=0):
        a, b = float(a), float(b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[rel]

    def arr(self, v, shape=None, integer=False):
        a = np.array(v, dtype=int if integer else float)
        return a.reshape(shape) if shape is not None else a

    def nparr(self, v): return np.asarray(v, dtype=float)
    def copy(self, a): return a.copy()

    def fail(self, label, **k):
        self.fails.append(dict(label=label, **{n: _js(v) for n, v in k.items()}))

    def defined(self, label, v):
        sh, vs = _flat(v)
        for i, x in enumerate(vs):
            self.values.append((label, x, 0.0))
            if not np.isfinite(x):
                self.fail('%s[%d] finite' % (label, i), value=x)

    def shape(self, label, v, shape):
        if tuple(np.shape(v)) != tuple(shape):
            self.fail(label + ' shape', got=np.shape(v), want=shape)

    def true(self, label, b):
        if not bool(b):
            self.fail(label)

    def eq(self, label, a, b=0, scale=None, fd=False, tol=None, exact=False):
        try:
            a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        except ValueError:
            self.fail(label + ' shapes', a=np.shape(a), b=np.shape(b))
            return
        sc = np.maximum(np.abs(a), np.abs(b))
        if scale is not None:
            for s in (scale if isinstance(scale, (list, tuple)) else [scale]):
                sc = np.maximum(sc, np.max(np.abs(np.asarray(s, dtype=float))))
        t = tol if tol is not None else (2e-4 if fd else 1e-7)
        # floor for values which cancel: rounding grows with the inputs. At a witness of a path whose obligations
        # are discharged, only a gap that rounding cannot explain says that the encoding and the real code disagree.
        big = max([1.0] + [abs(float(v)) for v in self.vals.values()])
        floor = 1e-12 * big
        if self.witness:
            t, floor = max(t, 1e-5), 1e-9 * big * big
        for i, (x, y, s) in enumerate(zip(a.reshape(-1), b.reshape(-1), np.broadcast_to(sc, a.shape).reshape(-1))):
            lb = label if a.size == 1 else '%s[%d]' % (label, i)
            self.values.append((lb, None, None) if fd else (lb, x, y))
            if exact:
                if not x == y and not (np.isnan(x) and np.isnan(y)):
                    self.fail(lb, a=x, b=y)
                continue
            if (self.stubbed or self.lazy) and not (np.isfinite(x) and np.isfinite(y)):
                continue        # the arbitrary member function of the encoding is singular here in reality
            d = abs(x - y)
            if not (d <= t * s + floor) or np.isinf(x) != np.isinf(y):
                self.fail(lb, a=x, b=y)

    def _rel(self, label, a, b, sgn, tol=None):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
            self.values.append(('%s[%d]' % (label, i), x, y))
            t = (tol if tol is not None else 1e-9) * max(1, abs(x), abs(y))
            if not (sgn * (x - y) >= -t):
                self.fail(label, a=x, b=y)

    def ge(self, label, a, b=0, tol=None): self._rel(label, a, b, 1, tol)
    def gt(self, label, a, b=0, tol=None): self._rel(label, a, b, 1, tol)
    def le(self, label, a, b=0, tol=None): self._rel(label, b, a, 1, tol)
    def lt(self, label, a, b=0, tol=None): self._rel(label, b, a, 1, tol)

    def repeats(self, n):
        for i in range(n):
            k = len(self.values)
            yield i
            if i:
                del self.values[k:]     # not in the encoding

    def raises(self, label, excs, f):
        try:
            f()
        except excs:
            return
        except Exception as ex:
            self.fail(label, raised=repr(ex))
            return
        self.fail(label, raised='nothing')

    def quiet(self, f): return f()

    def grad(self, f, xs):
        out = f(*xs)
        xs = [float(x) for x in xs]
        res = [[None] * len(xs) for _ in out]
        err = big = weak = 0.0
        fmax = max([float(np.max(np.abs(np.asarray(o, dtype=float)))) for o in out] + [0.0])
        for k in range(len(xs)):
            h = 1e-3 * max(1e-2, min(1.0, abs(xs[k]) if xs[k] else 1.0))

            def at(t):
                y = [np.float64(v) for v in xs]
                y[k] = np.float64(xs[k] + t)
                return [np.asarray(o, dtype=float) for o in f(*y)]
            def d4(h):
                p1, m1, p2, m2 = at(h), at(-h), at(2 * h), at(-2 * h)
                return [(8 * (p1[i] - m1[i]) - (p2[i] - m2[i])) / (12 * h) for i in range(len(out))]
            da, db = d4(h), d4(h / 3)
            for i in range(len(out)):
                err = max(err, float(np.max(np.abs(da[i] - db[i]))) if np.all(np.isfinite(da[i])) else 0.0)
                big = max(big, float(np.max(np.abs(da[i]))))
                weak = max(weak, float(np.max(np.abs(da[i]))) * h)
                d = da[i]
                res[i][k] = d if d.ndim else d[()]
        wild = fmax > 0 and weak < 1e-9 * fmax or any(abs(x) > 1e3 for x in xs) or any(abs(v) > 1e3 for v in self.vals.values())
        if (err > 5e-5 * big + 1e-15 or wild) and not self.fdok:
            raise SkipPath()        # finite differences are not trustworthy here
        return out, res


def _js(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.floating, float)):
        return repr(float(v))
    if isinstance(v, (int, str, list, tuple)):
        return v
    return repr(v)


def concrete_run(case, vals, tier, witness=False):
    """-> (failures, recorded values, exception text)"""
    M = ConM(case, vals, tier)
    M.witness = witness
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            case.fn(M)
    except SkipPath:
        return ([], M.values, 'skipped')
    except Exception as ex:
        M.fails.append({'label': 'exception', 'raised': repr(ex), 'where': traceback.format_exc().splitlines()[-3:]})
        return M.fails, M.values, repr(ex)
    return M.fails, M.values, None


# ------------------------------------------------------------------ exploring one case
class Run:
    def __init__(self, tier, timeout):
        self.tier, self.timeout = tier, timeout
        self.obligations = self.discharged = self.same_term = 0
        self.paths = self.infeasible = self.decisions = 0
        self.witnesses = self.validated = 0
        self.mismatch = []
        self.cut = 0             # paths left at the bound on loop stages
        self.inconclusive = []
        self.violations = []
        self.samples = []
        self.labels = set()


def explore(case, tier):
    t0 = time.time()
    warnings.simplefilter('ignore')
    o = case.opts
    STATS.__init__()
    timeout = o.get('timeout', 10000 if tier == 'quick' else 60000)
    run = Run(tier, timeout)
    budget = o.get('budget', 150 if tier == 'quick' else 700)
    maxpaths = o.get('max_paths', 2000)
    ov = o.get('overrides')
    pkg = L.Package(ov() if callable(ov) else ov)
    Cov.funcs.clear()
    Cov.lines.clear()
    Cov.start()
    work = [[]]
    seeds = ['%s/%d/%d' % (case.name, SEED, k) for k in range(CT.NPOOL)]
    shared = []
    rng = random.Random('%s/%d' % (case.name, SEED))
    try:
        while work:
            if time.time() - t0 > budget:
                run.inconclusive.append('%s: time budget exhausted with %d paths open' % (case.name, len(work)))
                break
            if run.paths >= maxpaths:
                run.inconclusive.append('%s: path limit' % case.name)
                break
            prefix = work.pop()
            ctx = Context(prefix, timeout_ms=o.get('branch_timeout', 2500), seeds=seeds, shared=shared)
            ctx.unroll = o.get('unroll', 0)
            ctx.havoc = [] if o.get('havoc') else None
            X.CUR = ctx
            M = SymM(case, ctx, pkg, run)
            S.ScipyOptimize.hook = None
            status = 'done'
            try:
                case.fn(M)
            except Infeasible:
                status = 'infeasible'
            except SkipPath:
                status = 'infeasible'
            except FoundViolation as v:
                run.violations.append(v.rec)
                break
            except (Unsupported, Blowup) as ex:
                run.inconclusive.append('%s: not encodable: %s: %s' % (case.name, type(ex).__name__, ex))
                run.inconclusive.append(traceback.format_exc()[-900:])
                break
            except (z3.Z3Exception, RecursionError, MemoryError) as ex:
                run.inconclusive.append('%s: engine: %r' % (case.name, ex))
                break
            except Exception as ex:
                # the code raised on this path: is the path real?
                X.CUR = ctx
                if not ctx.pool and ctx.check([], ctx.used)[0] == 'unsat':
                    run.infeasible += 1
                    continue
                rec = find_counterexample(M, 'exception', z3.BoolVal(True), (), repr(ex), 'sat')
                if rec:
                    run.violations.append(rec)
                else:
                    run.inconclusive.append('%s: exception only in the encoding: %r\n%s' % (case.name, ex, traceback.format_exc()[-1200:]))
                break
            finally:
                X.CUR = None
                work.extend(reversed(ctx.pending))
                run.decisions += len(ctx.trace)
                run.cut += ctx.cut
            if status == 'infeasible':
                run.infeasible += 1
                continue
            run.paths += 1
            # reachability witness, replayed on the real code (also validates the encoding)
            if run.paths <= o.get('max_witness', 12):
                X.CUR = ctx
                try:
                    bad = witness(case, M, ctx, run, rng, tier)
                finally:
                    X.CUR = None
                if bad:
                    break
    finally:
        Cov.stop()
        X.CUR = None
    if not run.violations and not run.inconclusive:
        if run.paths == 0 or run.obligations == 0:
            run.inconclusive.append('%s: vacuous (no feasible path reached an obligation)' % case.name)
        elif run.witnesses == 0 and not o.get('no_witness'):
            run.inconclusive.append('%s: vacuous (no reachability witness)' % case.name)
    return {
        'case': case.name, 'bounds': case.bounds, 'paths': run.paths, 'infeasible': run.infeasible, 'decisions': run.decisions,
        'obligations': run.obligations, 'discharged': run.discharged, 'same_term': run.same_term,
        'cut': run.cut, 'witnesses': run.witnesses, 'validated': run.validated,
        'queries': STATS.queries, 'solver_s': round(STATS.time, 3), 'max_query_s': round(STATS.maxq, 3),
        'unsat': STATS.unsat, 'sat': STATS.sat, 'unknown': STATS.unknown,
        'violations': run.violations, 'inconclusive': run.inconclusive, 'samples': run.samples[:3],
        'functions': sorted(Cov.funcs), 'lines': len(Cov.lines), 'linelist': sorted(Cov.lines),
        'wall_s': round(time.time() - t0, 2),
    }


def witness(case, M, ctx, run, rng, tier):
    """returns True when a violation was recorded"""
    import mpmath
    stubs = case.opts.get('overrides')
    pool = pool_values(ctx, M.nice)
    for attempt in range(4):
        if attempt < len(pool) and attempt < 3:
            vals = pool[attempt]
        elif run.witnesses > 2 and (attempt > 0 or not pool):
            return False
        else:
            vals = box_model(ctx, M.nice, [], (), rng, spread=0.12 if attempt == 0 else 0.4)
        if vals is None:
            return False
        fails, cvals, exc = concrete_run(case, vals, tier, True)
        if exc == 'skipped':
            continue
        run.witnesses += 1
        if fails:
            run.violations.append({'case': case.name, 'label': fails[0]['label'], 'what': 'solver witness of the path fails on the real code',
                                   'solver': 'sat', 'values': {n: '%d/%d' % (v.numerator, v.denominator) for n, v in vals.items()},
                                   'floats': {n: float(v) for n, v in vals.items()}, 'failures': fails[:8], 'tier': tier, 'witness': True})
            return True
        if len(run.samples) < 3:
            run.samples.append({'case': case.name, 'path': ctx.trace[:20], 'witness': {n: float(v) for n, v in vals.items()}})
        if stubs:
            return False
        ok, msg = compare_values(M.values, cvals, vals)
        if ok:
            run.validated += 1
            return False
        last = msg
    if 'last' in locals():
        run.mismatch.append(last)
        run.inconclusive.append('%s: encoding disagrees with the real code at a witness: %s' % (case.name, last))
    return False


def compare_values(sv, cv, vals):
    import mpmath
    mp = mpmath.mp
    mp.dps = 30
    if len(sv) != len(cv):
        return False, 'number of observed values %d vs %d' % (len(sv), len(cv))
    env = {n: mpmath.mpf(v.numerator) / v.denominator for n, v in vals.items()}
    for (l1, a, b), (l2, x, y) in zip(sv[:60], cv[:60]):
        if a is None or x is None:
            continue
        for e, c in ((a, x), (b, y)):
            e = lift(e)
            if e is None or e.op in ('nan', 'inf', 'sinf'):
                continue
            try:
                v = X.evalf(e, env, mpmath)
            except ZeroDivisionError:
                continue
            except Unsupported:
                continue
            v = complex(v)
            c = complex(c)
            if abs(v - c) > 1e-6 * max(1e-3, abs(v), abs(c)):
                return False, '%s: encoding %r, real %r at %s' % (l1, v, c, {n: float(q) for n, q in vals.items()})
    return True, ''


def in_big_thread(f, *a):
    out = {}

    def g():
        try:
            out['r'] = f(*a)
        except BaseException as ex:
            out['e'] = ex
            out['tb'] = traceback.format_exc()
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=g)
    t.start()
    t.join()
    if 'e' in out:
        raise RuntimeError(out['tb'])
    return out['r']
