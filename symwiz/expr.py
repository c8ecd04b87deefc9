"""Hash-consed symbolic real expressions that live inside real numpy object arrays.

An `E` behaves like a numpy scalar (shape (), ravel, reshape, indexing ...).
Comparisons are decided eagerly through the current path explorer and return np.bool_.
"""
from fractions import Fraction
import math
import numpy as np


class Undefined(Exception):
    """a value that is undefined (nan/inf) was used where a real number is needed"""


class Unsupported(Exception):
    """the encoding does not cover something the code did"""


CUR = None  # current path context (set by ctx.Context)


class E:
    __slots__ = ('op', 'args', 'h', 'id', '__weakref__')
    _tab = {}
    _n = 0

    # ---- numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    def ravel(self, *a): return _arr1(self)
    def flatten(self, *a): return _arr1(self)
    def reshape(self, *shape, **k):
        return _arr1(self).reshape(*shape)
    def item(self, *a): return self
    def copy(self, *a): return self
    def astype(self, *a, **k): return self
    def tolist(self): return self
    def squeeze(self, *a): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def conjugate(self): return self
    conj = conjugate
    @property
    def T(self): return self
    @property
    def real(self): return self
    @property
    def flat(self): return _arr0(self).flat
    def __getitem__(self, idx):
        return _arr0(self)[idx]
    def __len__(self):
        raise TypeError("object of type 'numpy.float64' has no len()")
    def __array__(self, *a, **k):
        return _arr0(self)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce__(self):
        raise TypeError('E is not picklable')

    def __hash__(self): return self.h
    def __repr__(self): return to_str(self)
    def __format__(self, spec):
        return to_str(self)

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, o)
    __radd__ = __add__
    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, neg(o))
    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, neg(self))
    def __mul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(self, o)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(self, o)
    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, self)
    __div__ = __truediv__
    __rdiv__ = __rtruediv__
    def __floordiv__(self, o):
        o = lift(o)
        return floor_(div(self, o))
    def __rfloordiv__(self, o):
        return floor_(div(lift(o), self))
    def __mod__(self, o):
        o = lift(o)
        return self - o * floor_(div(self, o))
    def __rmod__(self, o):
        return lift(o) % self
    def __pow__(self, o, mod=None):
        o = lift(o)
        return NotImplemented if o is None else power(self, o)
    def __rpow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(o, self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return abs_(self)

    # ---- comparisons: decided on the spot
    def __lt__(self, o): return _cmp(self, o, '<')
    def __le__(self, o): return _cmp(self, o, '<=')
    def __gt__(self, o): return _cmp(self, o, '>')
    def __ge__(self, o): return _cmp(self, o, '>=')
    def __eq__(self, o): return _cmp(self, o, '==')
    def __ne__(self, o):
        r = _cmp(self, o, '==')
        return r if r is NotImplemented else np.bool_(not r)

    def __bool__(self):
        return bool(_cmp(self, ZERO, '!='))

    def __float__(self):
        if self.op == 'const':
            return float(self.args[0])
        if self.op == 'inf':
            return math.inf * self.args[0]
        if self.op == 'nan':
            return math.nan
        if self.op == 'pi':
            return math.pi
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.op == 'const':
            return int(self.args[0])
        raise Unsupported('int() of a symbolic value')
    __trunc__ = __int__

    def __index__(self):
        if self.op == 'const' and self.args[0].denominator == 1:
            return int(self.args[0])
        raise TypeError('symbolic value used as index')

    # methods looked up by numpy object ufuncs
    def sqrt(self): return sqrt_(self)
    def sin(self): return sin_(self)
    def cos(self): return cos_(self)
    def tan(self): return tan_(self)
    def arctan(self): return arctan_(self)
    def arccos(self): return arccos_(self)
    def arcsin(self): return arcsin_(self)
    def exp(self): return exp_(self)
    def log(self): return log_(self)
    def cosh(self): return cosh_(self)
    def sinh(self): return sinh_(self)
    def tanh(self): return div(sinh_(self), cosh_(self))
    def arctan2(self, o): return arctan2_(self, lift(o))
    def hypot(self, o): return sqrt_(self * self + lift(o) * lift(o))
    def square(self): return mul(self, self)
    def sign(self): return sign_(self)
    def floor(self): return floor_(self)
    def ceil(self): return neg(floor_(neg(self)))
    def rint(self): return rint_(self)
    def trunc(self): return fix_(self)
    def __round__(self, n=None): return rint_(self, n or 0)
    def __floor__(self): return floor_(self)
    def __ceil__(self): return neg(floor_(neg(self)))
    def absolute(self): return abs_(self)
    fabs = absolute
    def reciprocal(self): return div(ONE, self)
    def isnan(self): return np.bool_(self.op == 'nan')
    def isinf(self): return np.bool_(self.op in ('inf', 'sinf'))
    def isfinite(self): return np.bool_(self.op not in ('nan', 'inf', 'sinf'))
    def deg2rad(self): return div(mul(self, PI), const(180))
    radians = deg2rad
    def rad2deg(self): return div(mul(self, const(180)), PI)
    degrees = rad2deg
    def logical_not(self): return np.bool_(not bool(self))


def _arr0(e):
    a = np.empty((), dtype=object)
    a[()] = e
    return a


def _arr1(e):
    a = np.empty((1,), dtype=object)
    a[0] = e
    return a


def _mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, E) else a for a in args)
    e = E._tab.get(key)
    if e is None:
        e = object.__new__(E)
        e.op = op
        e.args = args
        E._n += 1
        e.id = ('#', E._n)
        e.h = hash(key)
        E._tab[key] = e
    return e


def reset_table():
    """only used between harness cases, to bound memory"""
    E._tab.clear()
    for k, e in _FIXED.items():
        E._tab[k] = e


def const(q):
    if not isinstance(q, Fraction):
        q = Fraction(q)
    return _mk('const', q)


def var(name): return _mk('var', name)


ZERO = const(0)
ONE = const(1)
TWO = const(2)
HALF = const(Fraction(1, 2))
NAN = _mk('nan')
INF = _mk('inf', 1)
NINF = _mk('inf', -1)
PI = _mk('pi')
_FIXED = dict(E._tab)


def lift(x):
    """python / numpy number -> E (None when x is not a scalar number)"""
    if type(x) is E:
        return x
    if isinstance(x, (bool, np.bool_)):
        return ONE if x else ZERO
    if isinstance(x, (int, np.integer)):
        return const(int(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f):
            return NAN
        if math.isinf(f):
            return INF if f > 0 else NINF
        if f == math.pi:
            return PI
        fr = Fraction(f)
        if fr.denominator <= 4096:
            return const(fr)
        return const(Fraction(repr(f)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    return None


def isc(e, v=None):
    return e.op == 'const' and (v is None or e.args[0] == v)


def force(a):
    """an infinity whose sign is that of an expression: decide the sign now"""
    if a.op == 'sinf':
        k = _sgn(a.args[0])
        return NAN if k == 0 else (INF if k > 0 else NINF)
    return a


def _known_sign(a): return a.op in ('inf', 'const', 'pi', 'sinf')


def add(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == 'sinf' or b.op == 'sinf':
        if a is b or b.op not in ('inf', 'sinf'):
            return a
        if a.op not in ('inf', 'sinf'):
            return b
        return add(force(a), force(b))
    if a.op == 'inf' or b.op == 'inf':
        if a.op == 'inf' and b.op == 'inf':
            return a if a is b else NAN
        return a if a.op == 'inf' else b
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] + b.args[0])
    if isc(a, 0):
        return b
    if isc(b, 0):
        return a
    if a is b:
        return mul(TWO, a)
    # x + (-1)*x
    if b.op == 'mul' and b.args[0].op == 'const' and b.args[0].args[0] == -1 and b.args[1] is a:
        return ZERO
    if a.op == 'mul' and a.args[0].op == 'const' and a.args[0].args[0] == -1 and a.args[1] is b:
        return ZERO
    if b.h < a.h:
        a, b = b, a
    return _mk('add', a, b)


def neg(a): return mul(const(-1), a)


def mul(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == 'sinf' or b.op == 'sinf':
        if a.op == 'sinf' and b.op == 'sinf':
            return _mk('sinf', mul(a.args[0], b.args[0]))
        if b.op == 'sinf':
            a, b = b, a
        if b.op == 'inf':
            return _mk('sinf', mul(a.args[0], const(b.args[0])))
        if b.op == 'const':
            s = _sgn(b)
            return NAN if s == 0 else (a if s > 0 else _mk('sinf', neg(a.args[0])))
        return _mk('sinf', mul(a.args[0], b))
    if a.op == 'inf' or b.op == 'inf':
        if not (_known_sign(a) and _known_sign(b)):
            if b.op == 'inf':
                a, b = b, a
            return _mk('sinf', b if a.args[0] > 0 else neg(b))
        s = _sgn(a) * _sgn(b)
        return NAN if s == 0 else (INF if s > 0 else NINF)
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] * b.args[0])
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        if a.args[0] == 0:
            return ZERO
        if a.args[0] == 1:
            return b
        if b.op == 'mul' and b.args[0].op == 'const':
            return mul(const(a.args[0] * b.args[0].args[0]), b.args[1])
        return _mk('mul', a, b)
    # pull constants outwards
    if a.op == 'mul' and a.args[0].op == 'const':
        return mul(a.args[0], mul(a.args[1], b))
    if b.op == 'mul' and b.args[0].op == 'const':
        return mul(b.args[0], mul(a, b.args[1]))
    if a is b:
        return ipow(a, 2)
    if b.h < a.h:
        a, b = b, a
    return _mk('mul', a, b)


def _sgn(a):
    a = force(a)
    if a.op == 'nan':
        return 0
    if a.op == 'inf':
        return a.args[0]
    if a.op == 'const':
        return (a.args[0] > 0) - (a.args[0] < 0)
    if a.op == 'pi':
        return 1
    if bool(_cmp(a, ZERO, '>')):
        return 1
    if bool(_cmp(a, ZERO, '<')):
        return -1
    return 0


def div(a, b):
    b = force(b)
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if b.op == 'inf':
        return NAN if a.op == 'inf' else ZERO
    if isc(b, 0):
        if not _known_sign(a):
            return _mk('sinf', a)
        if a.op == 'sinf':
            return a
        s = _sgn(a)
        return NAN if s == 0 else (INF if s > 0 else NINF)
    if a is b and a.op != 'inf':
        # x/x: still requires x != 0; keep the definedness
        if b.op in ('const', 'pi'):
            return ONE
    if b.op == 'const':
        return mul(const(1 / b.args[0]), a)
    return mul(a, ipow(b, -1))


def ipow(a, n):
    """a ** n, n int or Fraction, structural only"""
    n = Fraction(n)
    a = force(a)
    if a.op == 'nan':
        return NAN
    if a.op == 'inf':
        if n == 0:
            return ONE
        if n < 0:
            return ZERO
        return INF if (a.args[0] > 0 or n.numerator % 2 == 0) else NINF
    if n == 0:
        return ONE
    if n == 1:
        return a
    if a.op == 'const':
        q = a.args[0]
        if n.denominator == 1:
            if q == 0 and n < 0:
                return NAN if False else INF
            return const(q ** int(n))
        if q == 0:
            return ZERO if n > 0 else INF
        if q < 0:
            return NAN
        r = _qroot(q, n.denominator)
        if r is not None:
            return const(r ** n.numerator)
    if a.op == 'mul' and a.args[0].op == 'const' and n.denominator == 1:
        return mul(const(a.args[0].args[0] ** int(n)), ipow(a.args[1], n))
    if a.op == 'pow':
        m = a.args[1]
        # (x^m)^n = x^(mn): valid if m is an odd/any integer with integer n, or m non-integer (x >= 0)
        if n.denominator == 1 or m.denominator != 1:
            if not (m > 0 and n > 0 or n.denominator == 1 or True):
                pass
            return ipow(a.args[0], m * n)
    return _mk('pow', a, n)


def _qroot(q, d):
    def ir(n):
        r = round(n ** (1.0 / d)) if n < 10**300 else int(math.isqrt(n)) if d == 2 else None
        if r is None:
            return None
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** d == n:
                return k
        return None
    a, b = ir(q.numerator), ir(q.denominator)
    if a is None or b is None or b == 0:
        return None
    return Fraction(a, b)


def power(a, b):
    if b.op == 'const':
        return ipow(a, b.args[0])
    if b.op in ('nan',):
        return NAN
    if a.op == 'const' and a.args[0] > 0 or a.op == 'var':
        return exp_(b * log_(a))
    raise Unsupported('symbolic exponent')


def fn(name, *args):
    for a in args:
        if type(a) is E and a.op == 'nan':
            return NAN
    return _mk('fn', name, *args)


def sqrt_(a): return ipow(lift(a), Fraction(1, 2))


def _pi_multiple(a):
    """q if a == q*pi with q rational else None"""
    if isc(a, 0):
        return Fraction(0)
    if a.op == 'pi':
        return Fraction(1)
    if a.op == 'mul' and a.args[0].op == 'const' and a.args[1].op == 'pi':
        return a.args[0].args[0]
    return None


def _bad(a): return a.op in ('nan', 'inf', 'sinf')


def sin_(a):
    a = lift(a)
    if _bad(a):
        return NAN
    return fn('sin', a) if not isc(a, 0) else ZERO


def cos_(a):
    a = lift(a)
    if _bad(a):
        return NAN
    return fn('cos', a) if not isc(a, 0) else ONE


def tan_(a): return div(sin_(a), cos_(a))
def arctan_(a):
    a = force(lift(a))
    if a.op == 'inf':
        return mul(const(Fraction(a.args[0], 2)), PI)
    return fn('arctan', a) if not isc(a, 0) else ZERO


def arccos_(a):
    a = force(lift(a))
    if isc(a, 1):
        return ZERO
    if isc(a, -1):
        return PI
    if isc(a, 0):
        return mul(HALF, PI)
    if _bad(a):
        return NAN
    return fn('arccos', a)


def arcsin_(a):
    return add(mul(HALF, PI), neg(arccos_(lift(a))))


def arctan2_(y, x):
    y, x = lift(y), lift(x)
    if _bad(y) or _bad(x):
        return NAN
    if y.op == 'const' and x.op == 'const':
        yy, xx = y.args[0], x.args[0]
        if yy == 0 and xx >= 0:
            return ZERO
        if yy == 0:
            return PI
        if xx == 0:
            return mul(const(Fraction(1 if yy > 0 else -1, 2)), PI)
    return fn('arctan2', y, x)


def exp_(a):
    a = force(lift(a))
    if a.op == 'inf':
        return INF if a.args[0] > 0 else ZERO
    return fn('exp', a) if not isc(a, 0) else ONE


def log_(a):
    a = force(lift(a))
    if a.op == 'inf':
        return INF if a.args[0] > 0 else NAN
    if isc(a, 0):
        return NINF
    return fn('log', a) if not isc(a, 1) else ZERO


def cosh_(a):
    a = force(lift(a))
    if a.op == 'inf':
        return INF
    return fn('cosh', a) if not isc(a, 0) else ONE


def sinh_(a):
    a = force(lift(a))
    if a.op == 'inf':
        return a
    return fn('sinh', a) if not isc(a, 0) else ZERO


def irrational(a):
    """the expression contains a root"""
    seen, st = set(), [a]
    while st:
        e = st.pop()
        if e.id in seen:
            continue
        seen.add(e.id)
        if e.op == 'pow' and getattr(e.args[1], 'denominator', 1) != 1:
            return True
        st += [c for c in e.args if type(c) is E]
    return False


def abs_(a):
    a = force(lift(a))
    if a.op == 'nan':
        return a
    if a.op == 'inf':
        return INF
    if a.op == 'const':
        return const(abs(a.args[0]))
    if CUR is not None and CUR.havoc is not None and irrational(a):
        return CUR.havoc_abs(a)
    if bool(_cmp(a, ZERO, '>=')):
        return a
    return neg(a)


def sign_(a):
    a = force(lift(a))
    if a.op == 'nan':
        return a
    return const(_sgn(a))


def floor_(a):
    a = force(lift(a))
    if a.op == 'const':
        return const(math.floor(a.args[0]))
    if a.op == 'nan' or a.op == 'inf':
        return a
    return _integer('floor', a, ((0, 1, 0), (-1, 0, -1)))


def _integer(nm, a, near):
    """floor / nearest integer: the integers around zero are decided, the others are an unknown with its bounds"""
    if CUR is None:
        return fn(nm, a)
    for lo, hi, v in near:
        if bool(_cmp(a, const(Fraction(lo)), '>=')) and bool(_cmp(a, const(Fraction(hi)), '<')):
            return const(v)
    return fn(nm, a)


def rint_(a, digits=0):
    """nearest integer (at a tie either neighbour is allowed); digits: after the decimal point"""
    a = force(lift(a))
    if a.op == 'nan' or a.op == 'inf':
        return a
    digits = int(digits)
    if a.op == 'const':
        return const(Fraction(round(a.args[0], digits)))
    s = const(Fraction(10) ** digits)
    h = Fraction(1, 2)
    return div(_integer('rint', mul(a, s), ((-h, h, 0),)), s)


def fix_(a):
    """towards zero"""
    a = force(lift(a))
    if a.op == 'nan' or a.op == 'inf':
        return a
    return floor_(a) if bool(_cmp(a, ZERO, '>=')) else neg(floor_(neg(a)))


def trunc_(a):
    """conversion to an integer type: any value, if it is not known"""
    a = force(lift(a))
    if a.op == 'const':
        return const(int(a.args[0]))
    if CUR is None:
        raise Unsupported('integer part of a symbolic value')
    return CUR.unknown('int')


def _cmp(a, b, rel):
    b = lift(b)
    if b is None:
        return NotImplemented
    a, b = force(a), force(b)
    if a.op == 'nan' or b.op == 'nan':
        return np.bool_(rel == '!=')
    if a.op == 'inf' or b.op == 'inf':
        x = a.args[0] * 2 if a.op == 'inf' else 0
        y = b.args[0] * 2 if b.op == 'inf' else 0
        return np.bool_({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[rel])
    if a is b:
        return np.bool_(rel in ('<=', '>=', '=='))
    if a.op == 'const' and b.op == 'const':
        x, y = a.args[0], b.args[0]
        return np.bool_({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[rel])
    if CUR is None:
        raise Unsupported('symbolic comparison outside of an exploration')
    return np.bool_(CUR.decide(a, b, rel))


def to_str(e, depth=12):
    if e.op == 'const':
        return str(e.args[0])
    if e.op == 'var':
        return e.args[0]
    if e.op == 'pi':
        return 'pi'
    if e.op == 'sinf':
        return 'inf*' + to_str(e.args[0], depth - 1)
    if e.op in ('nan', 'inf'):
        return e.op if e.op == 'nan' else ('inf' if e.args[0] > 0 else '-inf')
    if depth == 0:
        return '..'
    d = depth - 1
    if e.op == 'add':
        return '(%s + %s)' % (to_str(e.args[0], d), to_str(e.args[1], d))
    if e.op == 'mul':
        return '%s*%s' % (to_str(e.args[0], d), to_str(e.args[1], d))
    if e.op == 'pow':
        return '%s**(%s)' % (to_str(e.args[0], d), e.args[1])
    return '%s(%s)' % (e.args[0], ', '.join(to_str(a, d) if type(a) is E else str(a) for a in e.args[1:]))


# ------------------------------------------------------------------ traversal
def postorder(roots):
    seen, out, st = set(), [], [(r, 0) for r in roots]
    while st:
        e, k = st.pop()
        if k:
            out.append(e)
            continue
        if e.id in seen:
            continue
        seen.add(e.id)
        st.append((e, 1))
        for a in e.args:
            if type(a) is E and a.id not in seen:
                st.append((a, 0))
    return out


# ------------------------------------------------------------------ derivative
def diff(e, x, memo=None):
    """d e / d x (x a var E)"""
    memo = {} if memo is None else memo
    for n in postorder([e]):
        if n.id in memo:
            continue
        memo[n.id] = _diff1(n, x, memo)
    return memo[e.id]


def _diff1(n, x, m):
    op = n.op
    if n is x:
        return ONE
    if op in ('const', 'var', 'pi'):
        return ZERO
    if op in ('nan', 'inf', 'sinf'):
        return NAN
    if op == 'add':
        return add(m[n.args[0].id], m[n.args[1].id])
    if op == 'mul':
        a, b = n.args
        return add(mul(m[a.id], b), mul(a, m[b.id]))
    if op == 'pow':
        a, k = n.args
        da = m[a.id]
        if isc(da, 0):
            return ZERO
        return mul(const(k), mul(ipow(a, k - 1), da))
    if op == 'fn':
        nm = n.args[0]
        tot = ZERO
        ea = [a for a in n.args[1:] if type(a) is E]
        if all(isc(m[a.id], 0) for a in ea):
            return ZERO
        for i, a in enumerate(n.args[1:]):
            if type(a) is not E:
                continue
            da = m[a.id]
            if isc(da, 0):
                continue
            tot = add(tot, mul(fn_partial(nm, n.args[1:], i), da))
        return tot
    raise Unsupported('diff ' + op)


def fn_partial(nm, args, i):
    a = args[0]
    if nm == 'sin':
        return cos_(a)
    if nm == 'cos':
        return neg(sin_(a))
    if nm == 'exp':
        return exp_(a)
    if nm == 'log':
        return div(ONE, a)
    if nm in ('floor', 'rint'):
        return ZERO
    if nm == 'cosh':
        return sinh_(a)
    if nm == 'sinh':
        return cosh_(a)
    if nm == 'arctan':
        return div(ONE, ONE + a * a)
    if nm == 'arccos':
        return div(const(-1), sqrt_(ONE - a * a))
    if nm == 'arctan2':
        y, x = args
        r2 = x * x + y * y
        return div(x, r2) if i == 0 else neg(div(y, r2))
    if nm == 'powq':   # x ** q, args (x, q)
        q = args[1]
        return mul(const(q), div(fn('powq', a, q), a))
    if nm == 'K':
        return div(fn('Ee', a) - (1 - a) * fn('K', a), 2 * a * (1 - a))
    if nm == 'Ee':
        return div(fn('Ee', a) - fn('K', a), 2 * a)
    if nm == 'Pi':
        n, mm = args
        K, Ee, P = fn('K', mm), fn('Ee', mm), fn('Pi', n, mm)
        if i == 0:
            return div(Ee + (mm - n) * K / n + (n * n - mm) * P / n, 2 * (mm - n) * (n - 1))
        return div(Ee / (mm - 1) + P, 2 * (n - mm))
    raise Unsupported('derivative of ' + nm)


def subst(e, mp):
    """replace vars: mp {E var: E}"""
    memo = {k.id: v for k, v in mp.items()}
    for n in postorder([e]):
        if n.id in memo:
            continue
        g = lambda a: memo[a.id] if type(a) is E else a
        if n.op == 'add':
            memo[n.id] = add(g(n.args[0]), g(n.args[1]))
        elif n.op == 'mul':
            memo[n.id] = mul(g(n.args[0]), g(n.args[1]))
        elif n.op == 'pow':
            memo[n.id] = ipow(g(n.args[0]), n.args[1])
        elif n.op == 'fn':
            f = {'sin': sin_, 'cos': cos_, 'exp': exp_, 'log': log_, 'arctan': arctan_, 'arccos': arccos_,
                 'arctan2': arctan2_, 'cosh': cosh_, 'sinh': sinh_}.get(n.args[0])
            aa = [g(a) for a in n.args[1:]]
            memo[n.id] = f(*aa) if f else fn(n.args[0], *aa)
        else:
            memo[n.id] = n
    return memo[e.id]


# ------------------------------------------------------------------ numeric evaluation (mpmath)
def evalf(e, env, mp):
    """numeric value of e with env {name: mpf}; raises ZeroDivisionError etc."""
    memo = {}
    for n in postorder([e]):
        op = n.op
        if op == 'const':
            v = mp.mpf(n.args[0].numerator) / n.args[0].denominator
        elif op == 'var':
            v = env[n.args[0]]
        elif op == 'pi':
            v = mp.pi
        elif op == 'nan':
            v = mp.nan
        elif op == 'inf':
            v = mp.inf * n.args[0]
        elif op == 'sinf':
            v = mp.nan
        elif op == 'add':
            v = memo[n.args[0].id] + memo[n.args[1].id]
        elif op == 'mul':
            v = memo[n.args[0].id] * memo[n.args[1].id]
        elif op == 'pow':
            k = n.args[1]
            b = memo[n.args[0].id]
            if k.denominator == 1:
                v = b ** int(k)
            else:
                v = b ** (mp.mpf(k.numerator) / k.denominator)
        else:
            a = [memo[x.id] if type(x) is E else x for x in n.args[1:]]
            f = n.args[0]
            if f in ('sin', 'cos', 'exp', 'log', 'cosh', 'sinh'):
                v = getattr(mp, f)(a[0])
            elif f == 'floor':
                v = mp.floor(a[0])
            elif f == 'rint':
                v = mp.nint(a[0])
            elif f == 'arctan':
                v = mp.atan(a[0])
            elif f == 'arccos':
                v = mp.acos(a[0])
            elif f == 'arctan2':
                v = mp.atan2(a[0], a[1])
            elif f == 'K':
                v = mp.ellipk(a[0])
            elif f == 'Ee':
                v = mp.ellipe(a[0])
            elif f == 'Pi':
                v = mp.ellippi(a[0], a[1])
            elif f == 'powq':
                v = a[0] ** (mp.mpf(a[1].numerator) / a[1].denominator)
            else:
                raise Unsupported('evalf ' + str(f))
        memo[n.id] = v
    return memo[e.id]
