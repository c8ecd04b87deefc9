"""numpy / scipy / math look-alikes for symbolic object arrays.  Everything not listed here is real numpy."""
import math as _math
import operator
from fractions import Fraction
import numpy as np
from . import expr as X
from .expr import E, lift, Unsupported, NAN, INF, ZERO, ONE, PI, const


def obj(x):
    """anything numeric -> E scalar or object ndarray of E (bool arrays untouched)"""
    if isinstance(x, np.ndarray):
        if x.dtype == object or x.dtype.kind == 'b':
            return x
        if x.dtype.kind in 'iuf':
            out = np.empty(x.shape, dtype=object)
            of, xf = out.reshape(-1), x.reshape(-1)
            for i in range(xf.size):
                of[i] = lift(xf[i])
            return out
        return x
    l = lift(x)
    if l is not None:
        return l
    if isinstance(x, (list, tuple)):
        return asarray(x)
    return x


def _scal(a):
    return a[()] if isinstance(a, np.ndarray) and a.ndim == 0 else a


class IntA(np.ndarray):
    """array of an integer type: what is assigned to its elements loses its fraction, and integer arithmetic stays integer"""
    KEEP = (np.add, np.subtract, np.multiply, np.negative, np.positive)

    def __array_ufunc__(self, ufunc, method, *ins, out=None, **k):
        plain = [i.view(np.ndarray) if isinstance(i, IntA) else i for i in ins]
        r = getattr(ufunc, method)(*plain, **k)
        whole = ufunc in self.KEEP and all(isinstance(i, (int, np.integer, IntA)) for i in ins)
        if out is not None:
            if isinstance(out[0], IntA) and not whole:
                raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
            np.ndarray.__setitem__(out[0], Ellipsis, r)
            return out[0]
        return r.view(IntA) if whole and isinstance(r, np.ndarray) and r.dtype == object else r

    def __setitem__(self, i, v):
        if not isinstance(v, (int, np.integer, IntA)):
            v = ew(X.trunc_, v)
        np.ndarray.__setitem__(self, i, v)


def _int_like(x, r, dtype):
    return r.view(IntA) if isinstance(x, IntA) and dtype is None else r


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, IntA) and dtype is not None and np.dtype(_dt(dtype)).kind == 'f':
        return np.array(x.view(np.ndarray))
    if dtype is not None and np.dtype(_dt(dtype)).kind in 'biuSU':
        return np.asarray(x, dtype=dtype)
    if isinstance(x, np.ndarray):
        return obj(x)
    if type(x) is E:
        return X._arr0(x)
    r = np.asarray(_deE(x), dtype=object) if _hasE(x) else np.asarray(x)
    if r.dtype.kind in 'iuf':
        r = obj(r)
        if not isinstance(r, np.ndarray):
            r = X._arr0(r)
    elif r.dtype == object:
        r = _lift_inplace(r)
    return r


def _hasE(x):
    if type(x) is E:
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_hasE(v) for v in x)
    return False


def _deE(x):
    """nested lists -> nested lists with 0-d arrays unwrapped (keeps numpy from touching E)"""
    if isinstance(x, (list, tuple)):
        return [_deE(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist() if x.ndim else x[()]
    return x


def _lift_inplace(r):
    f = r.reshape(-1)
    for i in range(f.size):
        l = lift(f[i])
        if l is not None:
            f[i] = l
    return f.reshape(r.shape) if f.base is not r and f is not r else r


def _dt(d):
    if d is FloatShim:
        return float
    return d


def array(x, dtype=None, copy=True, ndmin=0, **k):
    r = asarray(x, dtype)
    if copy and isinstance(r, np.ndarray):
        r = r.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray_x(x, *a, **k): return asarray(x)


def ew(f, x, boolean=False):
    """apply f elementwise"""
    x = obj(x)
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=bool if boolean else object)
        of, xf = out.reshape(-1), x.reshape(-1)
        for i in range(xf.size):
            v = lift(xf[i])
            of[i] = f(v)
        return out if out.ndim else (np.bool_(out[()]) if boolean else out[()])
    return f(lift(x))


def _finish(r, out, where):
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        if where is True:
            out[...] = r
        else:
            out[where] = np.broadcast_to(r, out.shape)[where]
        return out
    return r


def ew2(f, a, b, where=True, boolean=False):
    a, b = obj(a), obj(b)
    if where is not True:
        a, b, w = np.broadcast_arrays(a, b, where)
    elif isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        aa = a if isinstance(a, np.ndarray) else X._arr0(a)
        bb = b if isinstance(b, np.ndarray) else X._arr0(b)
        a, b = np.broadcast_arrays(aa, bb)
        w = None
    else:
        return f(lift(a), lift(b))
    out = np.empty(a.shape, dtype=bool if boolean else object)
    it = np.ndindex(*a.shape)
    for i in it:
        if w is not None and not w[i]:
            out[i] = NAN
            continue
        out[i] = f(lift(a[i]), lift(b[i]))
    return out if out.ndim else out[()]


def U(f, boolean=False):
    def g(x, out=None, where=True, **k):
        if where is not True:
            x = np.broadcast_arrays(obj(x), where)[0]
            r = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                r[i] = f(lift(x[i])) if np.broadcast_to(where, x.shape)[i] else NAN
            return _finish(r, out, where)
        return _finish(ew(f, x, boolean), out, where)
    return g


class UF2:
    """binary ufunc look-alike"""

    def __init__(self, f, real=None, boolean=False):
        self.f, self.real, self.boolean = f, real, boolean

    def __call__(self, a, b, out=None, where=True, **k):
        return _finish(ew2(self.f, a, b, where, self.boolean), out, where)

    def reduce(self, a, axis=0, **k):
        a = asarray(a)
        if axis is None:
            a = a.ravel()
            axis = 0
        r = None
        for i in range(a.shape[axis]):
            v = np.take(a, i, axis=axis)
            r = v if r is None else self(r, v)
        return r

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def accumulate(self, a, axis=0, **k):
        a = asarray(a)
        out = a.copy()
        for i in range(1, a.shape[axis]):
            sl = [slice(None)] * a.ndim
            pr = list(sl)
            sl[axis], pr[axis] = i, i - 1
            out[tuple(sl)] = self(out[tuple(pr)], a[tuple(sl)])
        return out

    def at(self, a, idx, b):
        a[idx] = self(a[idx], b)


def _filled(shape, v):
    if isinstance(shape, E):
        shape = int(shape)
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(s) for s in shape)
    a = np.empty(shape, dtype=object)
    a.fill(v)
    return a


def _isnum(dtype):
    return dtype is None or np.dtype(_dt(dtype)).kind in 'fO'


def zeros(shape, dtype=None, *a, **k):
    return _filled(shape, ZERO) if _isnum(dtype) else np.zeros(shape, dtype)


def ones(shape, dtype=None, *a, **k):
    return _filled(shape, ONE) if _isnum(dtype) else np.ones(shape, dtype)


def empty(shape, dtype=None, *a, **k):
    return _filled(shape, NAN) if _isnum(dtype) else np.empty(shape, dtype)


def full(shape, v, dtype=None, *a, **k):
    l = lift(v)
    if isinstance(v, (bool, np.bool_)) or not _isnum(dtype):
        return np.full(shape, v, dtype)
    if l is None:
        r = _filled(shape, ZERO)
        r[...] = obj(v)
        return r
    return _filled(shape, l)


def _shape(x): return np.shape(x) if not isinstance(x, E) else ()
def zeros_like(x, dtype=None, **k): return _int_like(x, zeros(_shape(x), dtype), dtype)
def ones_like(x, dtype=None, **k): return _int_like(x, ones(_shape(x), dtype), dtype)
def empty_like(x, dtype=None, **k): return _int_like(x, empty(_shape(x), dtype), dtype)
def full_like(x, v, dtype=None, **k): return _int_like(x, full(_shape(x), v, dtype), dtype)


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    a, b = lift(a), lift(b)
    if a is None or b is None:
        raise Unsupported('array linspace')
    n = num - 1 if endpoint else num
    step = (b - a) / const(n) if n else NAN
    r = np.empty((num,), dtype=object)
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            r[i] = b
        else:
            r[i] = a + step * i if n else a
    return (r, step) if retstep else r


def arange(*a, **k):
    if any(type(x) is E for x in a):
        if all(type(x) is not E or x.op == 'const' for x in a):
            q = [x.args[0] if type(x) is E else Fraction(x) for x in a]
            if all(v.denominator == 1 for v in q):
                return np.arange(*[int(v) for v in q])
            lo, hi, st = (Fraction(0), q[0], Fraction(1)) if len(q) == 1 else (q + [Fraction(1)])[:3]
            n = max(0, _math.ceil((hi - lo) / st))
            return asarray([const(lo + i * st) for i in range(n)])
        raise Unsupported('symbolic arange')
    if any(isinstance(x, float) for x in a):
        return obj(np.arange(*a))
    return np.arange(*a, **k)


def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = [lift(v) for v in asarray(xp).ravel()], [lift(v) for v in asarray(fp).ravel()]
    n = len(xp)

    def one(v):
        if v < xp[0]:
            return fp[0] if left is None else lift(left)
        if v > xp[n - 1]:
            return fp[n - 1] if right is None else lift(right)
        for i in range(n - 1):
            if v <= xp[i + 1]:
                return fp[i] + (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) * (v - xp[i])
        return fp[n - 1]
    return ew(one, x)


def mean(x, axis=None, **k):
    x = asarray(x)
    if axis is None:
        return sum_(x.ravel()) / const(x.size)
    return np.sum(x, axis=axis, **k) / const(x.shape[axis])


def sum_(x, axis=None, **k):
    x = asarray(x)
    if x.dtype.kind == 'b':
        return np.sum(x, axis=axis, **k)
    if x.size == 0 and axis is None:
        return ZERO
    r = np.sum(x, axis=axis, **k)
    return r


def prod_(x, axis=None, **k):
    return np.prod(asarray(x), axis=axis, **k)


def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if x is None:
        d = lift(dx)
        s1, s0 = np.take(y, range(1, y.shape[axis]), axis), np.take(y, range(0, y.shape[axis] - 1), axis)
        return sum_((s0 + s1) * d * X.HALF, axis=axis)
    x = asarray(x)
    d = np.diff(x, axis=-1 if x.ndim == 1 else axis)
    if x.ndim == 1 and y.ndim > 1:
        sh = [1] * y.ndim
        sh[axis] = d.shape[0]
        d = d.reshape(sh)
    s1, s0 = np.take(y, range(1, y.shape[axis]), axis), np.take(y, range(0, y.shape[axis] - 1), axis)
    r = d * (s1 + s0) * X.HALF
    return _zero_empty(np.sum(r, axis=axis))


def _zero_empty(r):
    return ZERO if isinstance(r, (int, float)) and r == 0 else r


def cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    y = asarray(y)
    if y.ndim != 1:
        raise Unsupported('cumtrapz on nd arrays')
    d = np.diff(asarray(x)) if x is not None else _filled(len(y) - 1, lift(dx))
    inc = d * (y[1:] + y[:-1]) * X.HALF
    r = np.cumsum(inc) if len(inc) else inc
    if initial is not None:
        r = np.concatenate((asarray([initial]), r))
    return r


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim > 1 and min(x.shape) > 1 and axis is None):
        raise Unsupported('norm ord')
    sq = x * x
    if axis is None:
        t = ZERO
        for v in sq.ravel():
            t = t + v
        r = X.sqrt_(lift(t))
        return r.reshape((1,) * x.ndim) if keepdims else r
    return ew(X.sqrt_, np.sum(sq, axis=axis, keepdims=keepdims))


def det(a):
    a = asarray(a)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    t = ZERO
    for j in range(n):
        t = t + (-1) ** j * a[0, j] * det(np.delete(a[1:], j, axis=1))
    return t


def inv(a):
    a = asarray(a)
    n = a.shape[0]
    d = det(a)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, 0), i, 1)
            r[i, j] = (-1) ** (i + j) * (det(m) if n > 1 else ONE) / d
    return r


class _Linalg:
    norm = staticmethod(norm)
    det = staticmethod(det)
    inv = staticmethod(inv)
    LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def solve(a, b): return np.dot(inv(a), asarray(b))

    def __getattr__(self, n):
        raise Unsupported('np.linalg.' + n)


def einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    ins, out = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    ops = [asarray(o) for o in ops]
    if out is None:
        al = ''.join(ins)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    rest = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for io in np.ndindex(*res.shape):
        env = dict(zip(out, io))
        t = ZERO
        for ir in np.ndindex(*[dims[c] for c in rest]):
            env.update(zip(rest, ir))
            v = ONE
            for s, o in zip(ins, ops):
                v = v * o[tuple(env[c] for c in s)]
            t = t + v
        res[io] = t
    return res if res.ndim else res[()]


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if x.op in ('nan', 'inf', 'sinf') or y.op in ('nan', 'inf', 'sinf'):
            return np.bool_(x is y and (x.op == 'inf' or equal_nan))
        return X.abs_(x - y) <= lift(atol) + lift(rtol) * X.abs_(y)
    return ew2(f, a, b, boolean=True)


def _truthy(x):
    x = asarray(x)
    if x.dtype == object:
        return ew(lambda v: bool(v), x, boolean=True)
    return x


def any_(x, *a, **k): return np.any(_truthy(x), *a, **k)
def all_(x, *a, **k): return np.all(_truthy(x), *a, **k)


def clip(x, lo, hi, out=None, **k):
    r = x
    if lo is not None:
        r = ew2(_max, r, lo)
    if hi is not None:
        r = ew2(_min, r, hi)
    return _finish(r, out, True)


def _max(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    return a if a >= b else b


def _min(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    return a if a <= b else b


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    return np.cross(asarray(a), asarray(b), axisa, axisb, axisc, axis)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        v = X.force(v)
        if v.op == 'nan':
            return lift(nan)
        if v.op == 'inf':
            p = posinf if v.args[0] > 0 else neginf
            return lift(p if p is not None else 1.7976931348623157e+308 * v.args[0])
        return v
    r = ew(f, x)
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


def _amax(x, axis=None, **k):
    return UF2(_max).reduce(asarray(x), axis)


def _amin(x, axis=None, **k):
    return UF2(_min).reduce(asarray(x), axis)


class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, np.floating, E))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class FloatShim(metaclass=_FM):
    def __new__(cls, x=0):
        if isinstance(x, str):
            return lift(float(x))
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError('only size-1 arrays can be converted to Python scalars')
            x = x.reshape(-1)[0]
        l = lift(x)
        if l is None:
            raise TypeError('float()')
        return l


def _heaviside(a, b):
    if a < 0:
        return ZERO
    if a > 0:
        return ONE
    return b


def _pow(a, b): return X.power(lift(a), lift(b))


class NumpyShim:
    pi = PI
    inf = float('inf')
    Inf = Infinity = inf
    nan = float('nan')
    NaN = NAN_ = nan
    float64 = float_ = float32 = double = FloatShim
    linalg = _Linalg()

    sqrt = staticmethod(U(X.sqrt_))
    sin = staticmethod(U(X.sin_))
    cos = staticmethod(U(X.cos_))
    tan = staticmethod(U(X.tan_))
    arctan = staticmethod(U(X.arctan_))
    arccos = staticmethod(U(X.arccos_))
    arcsin = staticmethod(U(X.arcsin_))
    exp = staticmethod(U(X.exp_))
    log = staticmethod(U(X.log_))
    cosh = staticmethod(U(X.cosh_))
    sinh = staticmethod(U(X.sinh_))
    tanh = staticmethod(U(lambda v: X.sinh_(v) / X.cosh_(v)))
    abs = absolute = fabs = staticmethod(U(X.abs_))
    sign = staticmethod(U(X.sign_))
    floor = staticmethod(U(X.floor_))
    ceil = staticmethod(U(lambda v: -X.floor_(-v)))
    rint = staticmethod(U(X.rint_))
    fix = trunc = staticmethod(U(X.fix_))
    square = staticmethod(U(lambda v: v * v))
    negative = staticmethod(U(lambda v: -v))
    positive = staticmethod(U(lambda v: v))
    reciprocal = staticmethod(U(lambda v: ONE / v))
    deg2rad = radians = staticmethod(U(lambda v: v * PI / 180))
    rad2deg = degrees = staticmethod(U(lambda v: v * 180 / PI))
    real = staticmethod(lambda x: x)
    isreal = staticmethod(lambda x: np.ones(_shape(x), bool))
    iscomplex = staticmethod(lambda x: np.zeros(_shape(x), bool))
    isnan = staticmethod(U(lambda v: v.op == 'nan', True))
    isinf = staticmethod(U(lambda v: v.op in ('inf', 'sinf'), True))
    isfinite = staticmethod(U(lambda v: v.op not in ('nan', 'inf', 'sinf'), True))
    isneginf = staticmethod(U(lambda v: X.force(v).op == 'inf' and X.force(v).args[0] < 0, True))
    isposinf = staticmethod(U(lambda v: X.force(v).op == 'inf' and X.force(v).args[0] > 0, True))

    add = UF2(operator.add)
    subtract = UF2(operator.sub)
    multiply = UF2(operator.mul)
    divide = true_divide = UF2(X.div)
    power = float_power = UF2(_pow)
    arctan2 = UF2(X.arctan2_)
    hypot = UF2(lambda a, b: X.sqrt_(a * a + b * b))
    mod = remainder = UF2(lambda a, b: a % b)
    fmod = UF2(lambda a, b: a - b * X.fix_(X.div(a, b)))
    floor_divide = UF2(lambda a, b: a // b)
    maximum = fmax = UF2(_max)
    minimum = fmin = UF2(_min)
    copysign = UF2(lambda a, b: X.abs_(a) if b >= 0 else -X.abs_(a))
    heaviside = UF2(_heaviside)
    less = UF2(lambda a, b: a < b, boolean=True)
    less_equal = UF2(lambda a, b: a <= b, boolean=True)
    greater = UF2(lambda a, b: a > b, boolean=True)
    greater_equal = UF2(lambda a, b: a >= b, boolean=True)
    equal = UF2(lambda a, b: a == b, boolean=True)
    not_equal = UF2(lambda a, b: a != b, boolean=True)

    array = staticmethod(array)
    asarray = staticmethod(asarray)
    asanyarray = ascontiguousarray = asfarray = staticmethod(asarray_x)
    zeros = staticmethod(zeros)
    ones = staticmethod(ones)
    empty = staticmethod(empty)
    full = staticmethod(full)
    zeros_like = staticmethod(zeros_like)
    ones_like = staticmethod(ones_like)
    empty_like = staticmethod(empty_like)
    full_like = staticmethod(full_like)
    linspace = staticmethod(linspace)
    arange = staticmethod(arange)
    interp = staticmethod(interp)
    mean = staticmethod(mean)
    cbrt = staticmethod(U(lambda v: X.power(X.abs_(v), ONE / 3) if v >= 0 else -X.power(X.abs_(v), ONE / 3)))
    log1p = staticmethod(U(lambda v: X.log_(ONE + v)))
    expm1 = staticmethod(U(lambda v: X.exp_(v) - ONE))
    log2 = staticmethod(U(lambda v: X.log_(v) / X.log_(const(2))))
    log10 = staticmethod(U(lambda v: X.log_(v) / X.log_(const(10))))

    @staticmethod
    def average(a, axis=None, weights=None, **k):
        if weights is None:
            return mean(a, axis=axis)
        a, w = asarray(a), asarray(weights)
        if axis is not None and w.ndim != a.ndim:
            raise Unsupported('average with weights along an axis')
        return sum_(a * w, axis=axis) / sum_(w, axis=axis)

    @staticmethod
    def isscalar(x): return isinstance(x, E) or np.isscalar(x)
    @staticmethod
    def finfo(d=None): return np.finfo(np.float64)
    @staticmethod
    def divmod(a, b): return divmod(a, b)
    sum = staticmethod(sum_)
    prod = staticmethod(prod_)
    trapz = staticmethod(trapz)
    einsum = staticmethod(einsum)
    isclose = staticmethod(isclose)
    clip = staticmethod(clip)
    cross = staticmethod(cross)
    nan_to_num = staticmethod(nan_to_num)
    any = staticmethod(any_)
    all = staticmethod(all_)
    amax = max = staticmethod(_amax)
    amin = min = staticmethod(_amin)

    @staticmethod
    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return bool(np.all(isclose(a, b, rtol, atol, equal_nan)))

    @staticmethod
    def array_equal(a, b, **k):
        a, b = asarray(a), asarray(b)
        return a.shape == b.shape and bool(np.all(ew2(lambda x, y: x == y, a, b, boolean=True)))

    @staticmethod
    def atleast_1d(*xs):
        r = [asarray(x).reshape(1) if asarray(x).ndim == 0 else asarray(x) for x in xs]
        return r[0] if len(r) == 1 else r

    @staticmethod
    def column_stack(xs): return np.column_stack([asarray(x) for x in xs])
    @staticmethod
    def vstack(xs): return np.vstack([asarray(x) for x in xs])
    @staticmethod
    def hstack(xs): return np.hstack([asarray(x) for x in xs])
    @staticmethod
    def stack(xs, axis=0, **k): return np.stack([asarray(x) for x in xs], axis=axis)
    @staticmethod
    def concatenate(xs, axis=0, **k): return np.concatenate([asarray(x) for x in xs], axis=axis)
    @staticmethod
    def append(a, b, axis=None): return np.append(asarray(a), asarray(b), axis)
    @staticmethod
    def dot(a, b): return np.dot(_arr(a), _arr(b))
    @staticmethod
    def matmul(a, b): return np.matmul(asarray(a), asarray(b))
    @staticmethod
    def inner(a, b): return np.inner(_arr(a), _arr(b))
    @staticmethod
    def vdot(a, b): return np.dot(asarray(a).ravel(), asarray(b).ravel())
    @staticmethod
    def outer(a, b): return np.outer(asarray(a), asarray(b))
    @staticmethod
    def cumsum(a, axis=None, **k): return np.cumsum(asarray(a), axis=axis)
    @staticmethod
    def diff(a, n=1, axis=-1, **k): return np.diff(asarray(a), n=n, axis=axis)
    @staticmethod
    def meshgrid(*a, **k): return np.meshgrid(*[asarray(x) for x in a], **k)
    @staticmethod
    def tile(a, r): return np.tile(asarray(a), r)
    @staticmethod
    def repeat(a, r, axis=None): return np.repeat(asarray(a), r, axis)
    @staticmethod
    def ravel(a, **k): return asarray(a).ravel()
    @staticmethod
    def eye(n, *a, **k): return obj(np.eye(n, *a, **k))
    @staticmethod
    def identity(n, *a, **k): return obj(np.eye(n))
    @staticmethod
    def diag(a, k=0):
        a = asarray(a)
        if a.ndim == 1:
            r = zeros((len(a), len(a)))
            for i in range(len(a)):
                r[i, i] = a[i]
            return r
        return np.diag(a, k)

    @staticmethod
    def where(c, *xy):
        c = _truthy(c)
        if not xy:
            return np.where(c)
        x, y = [asarray(v) for v in xy]
        r = np.where(c, x, y)
        return r

    @staticmethod
    def select(conds, vals, default=0):
        r = full(np.broadcast(*conds).shape, default)
        for c, v in reversed(list(zip(conds, vals))):
            r = np.where(c, asarray(v), r)
        return r

    @staticmethod
    def piecewise(x, conds, funcs):
        x = asarray(x)
        r = zeros(x.shape)
        done = np.zeros(x.shape, bool)
        conds = [np.asarray(c) for c in conds]
        if len(funcs) == len(conds) + 1:
            o = np.ones(x.shape, bool)
            for c in conds:
                o &= ~c
            conds.append(o)
        for c, f in zip(conds, funcs):
            r[c] = f(x[c]) if callable(f) else f
        return r

    @staticmethod
    def vectorize(f, *a, **k):
        def g(*xs):
            xs = np.broadcast_arrays(*[asarray(x) for x in xs])
            out = np.empty(xs[0].shape, dtype=object)
            for i in np.ndindex(*xs[0].shape):
                out[i] = lift(f(*[x[i] for x in xs]))
            return out if out.ndim else out[()]
        return g

    @staticmethod
    def round(x, decimals=0, out=None):
        if out is not None:
            raise Unsupported('round(out=)')
        return ew(lambda v: X.rint_(v, decimals), x)
    around = round_ = round

    def __getattr__(self, n):
        return getattr(np, n)


def _whole(v):
    return int(v) if v.op == 'const' else v


def _arr(a):
    return a if isinstance(a, (np.ndarray, E)) else asarray(a)


NP = NumpyShim()


# ------------------------------------------------------------------ elliptic integrals (stubs with their contract)
def ellipk_s(m):
    m = lift(m)
    if m.op in ('nan', 'inf', 'sinf'):
        return NAN if m is not X.NINF else ZERO
    if isinstance(m, E) and m == 1:
        return INF
    if m > 1:
        return NAN
    return X.fn('K', m) if not X.isc(m, 0) else PI * X.HALF


def ellipe_s(m):
    m = lift(m)
    if m.op in ('nan', 'inf', 'sinf'):
        return NAN if m is not X.NINF else INF
    if m == 1:
        return ONE
    if m > 1:
        return NAN
    return X.fn('Ee', m) if not X.isc(m, 0) else PI * X.HALF


def ellippi_s(n, m):
    n, m = lift(n), lift(m)
    if n.op in ('nan', 'inf', 'sinf') or m.op in ('nan', 'inf', 'sinf'):
        return NAN
    if m > 1:
        return NAN
    if n >= 1:
        return INF
    if m == 1:
        return INF
    return X.fn('Pi', n, m)


ellipk = U(ellipk_s)
ellipe = U(ellipe_s)


def ellipticPi(n, m):
    n, m = asarray(n), asarray(m)
    r = ew2(ellippi_s, n, m)
    return r if isinstance(r, np.ndarray) else X._arr0(r)


class ScipySpecial:
    ellipk = staticmethod(ellipk)
    ellipe = staticmethod(ellipe)

    @staticmethod
    def ellipkm1(p): return ellipk(1 - obj(p))

    def __getattr__(self, n):
        raise Unsupported('scipy.special.' + n)


class ScipyIntegrate:
    cumtrapz = cumulative_trapezoid = staticmethod(cumtrapz)
    trapz = trapezoid = staticmethod(trapz)

    def __getattr__(self, n):
        raise Unsupported('scipy.integrate.' + n)


class OptResult:
    pass


class ScipyOptimize:
    """minimize_scalar(bounded): contract stub.  Returns a fresh value of the interval at which the
    (non negative) objective vanishes, if it can vanish there; see Solver checks."""
    hook = None

    def minimize_scalar(self, f, *a, **k):
        if ScipyOptimize.hook is None:
            raise Unsupported('minimize_scalar without a contract')
        r = OptResult()
        r.x = ScipyOptimize.hook(f, *a, **k)
        r.success = True
        r.fun = f(r.x)
        return r

    def __getattr__(self, n):
        raise Unsupported('scipy.optimize.' + n)


class MathShim:
    pi = PI
    inf = float('inf')
    nan = float('nan')
    sqrt = staticmethod(X.sqrt_)
    sin = staticmethod(X.sin_)
    cos = staticmethod(X.cos_)
    tan = staticmethod(X.tan_)
    atan = staticmethod(X.arctan_)
    atan2 = staticmethod(X.arctan2_)
    acos = staticmethod(X.arccos_)
    asin = staticmethod(X.arcsin_)
    exp = staticmethod(X.exp_)
    log = staticmethod(X.log_)
    cosh = staticmethod(X.cosh_)
    sinh = staticmethod(X.sinh_)
    fabs = staticmethod(X.abs_)
    hypot = staticmethod(lambda a, b: X.sqrt_(lift(a) * a + lift(b) * b))
    pow = staticmethod(_pow)
    radians = staticmethod(lambda v: lift(v) * PI / 180)
    degrees = staticmethod(lambda v: lift(v) * 180 / PI)
    isnan = staticmethod(lambda v: lift(v).op == 'nan')
    isinf = staticmethod(lambda v: lift(v).op in ('inf', 'sinf'))
    isfinite = staticmethod(lambda v: lift(v).op not in ('nan', 'inf', 'sinf'))

    tau = 2 * PI
    e = X.exp_(ONE)
    tanh = staticmethod(lambda v: X.sinh_(lift(v)) / X.cosh_(lift(v)))
    log10 = staticmethod(lambda v: X.log_(v) / X.log_(const(10)))
    isclose = staticmethod(lambda a, b, rel_tol=1e-9, abs_tol=0: bool(X.abs_(lift(a) - b) <= _max(lift(rel_tol) * _max(X.abs_(lift(a)), X.abs_(lift(b))), lift(abs_tol))))
    copysign = staticmethod(lambda a, b: X.abs_(lift(a)) if b >= 0 else -X.abs_(lift(a)))
    dist = staticmethod(lambda p, q: norm(asarray(p) - asarray(q)))

    @staticmethod
    def fsum(v): return sum_(list(v))
    @staticmethod
    def prod(v, start=1): return prod_([start] + list(v))
    @staticmethod
    def floor(v): return _whole(X.floor_(lift(v)))
    @staticmethod
    def ceil(v): return _whole(-X.floor_(-lift(v)))
    trunc = staticmethod(lambda v: _whole(X.fix_(lift(v))))
    fmod = staticmethod(lambda a, b: lift(a) - b * X.fix_(lift(a) / b))
    remainder = staticmethod(lambda a, b: lift(a) - b * X.rint_(lift(a) / b))

    def __getattr__(self, n):
        raise Unsupported('math.' + n)
