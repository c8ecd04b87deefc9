"""C23: rotor-plane flow expansions: the closed forms in K, E, Pi equal their defining integrals over the azimuth.

The three complete elliptic integrals are replaced by their integrands at one arbitrary (symbolic) angle, the nodes of the
numerical integrals by the corresponding angle, and trapz by the integrand times the Jacobian of the substitution: the solver
then decides equality of the integrands for every angle, which gives equality of the integrals. The substitutions used:
K(r^2)=K(4r/(1+r)^2)/(1+r) (Landen), t=pi/2-theta on [0,pi/2], phi=2 theta on [0,pi]; for zero skew the total derivative of
sin t cos t/sqrt(1-k^2 sin^2 t), which integrates to zero, is added. On the real code the outputs are compared with adaptive quadrature."""
import contextlib
import numpy as _np
from symwiz.harness import Case
from symwiz import expr as X
from symwiz import npshim as S

NODE = {}


def _vec(f):
    def g(*a):
        a = _np.broadcast_arrays(*[S.asarray(v) for v in a])
        o = _np.empty(a[0].shape, dtype=object)
        for i in _np.ndindex(*o.shape):
            o[i] = f(*[X.lift(v[i]) for v in a])
        return o if o.ndim else o[()]
    return g


def _pi(n, k):
    s2 = NODE['s2']
    return 1 / ((1 - n * s2) * X.sqrt_(1 - k * s2))


def _k(k):
    s2 = NODE['s2']
    if NODE['landen']:
        q = X.sqrt_(k)
        return 1 / ((1 + q) * X.sqrt_(1 - 4 * q / ((1 + q) * (1 + q)) * s2))
    return 1 / X.sqrt_(1 - k * s2)


def _e(k):
    return X.sqrt_(1 - k * NODE['s2'])


@contextlib.contextmanager
def azimuth(M, landen):
    """one arbitrary angle stands for the integrals"""
    if not M.sym:
        yield None
        return
    th = M.var('theta', (0.2, 1.3))
    M.assume(th, '>', 0)
    M.assume(2 * th, '<', M.pi)
    M.assume(M.np.cos(th), '>', 0)
    M.assume(M.np.sin(th), '>', 0)
    c, s = M.np.cos(th), M.np.sin(th)
    NODE.update(s2=c * c, landen=landen)
    np, sp = M.np, M.wiz.special
    real = np.linspace

    def linspace(a, b, num=50, *k, **kw):
        if num < 50:
            return real(a, b, num, *k, **kw)
        # the interval is covered by theta in [0,pi/2], linearly
        a, b = X.lift(a), X.lift(b)
        NODE['w'] = (b - a) * 2 / np.pi
        o = _np.empty((1,), dtype=object)
        o[0] = a + NODE['w'] * th
        return o

    def trapz(y, x=None, dx=1.0, axis=-1):
        y, x = S.asarray(y), S.asarray(x)
        if y.shape[axis] != 1 or x.shape[axis if x.ndim > 1 else 0] != 1:
            raise X.Unsupported('integral over something else')
        return _np.take(y, 0, axis) * NODE['w']
    new = dict(linspace=linspace, trapz=trapz, trapezoid=trapz)
    old_sp = {n: getattr(sp, n) for n in ('ellipk', 'ellipe')}
    had = {n: np.__dict__.get(n) for n in new}
    try:
        for n in new:
            setattr(np, n, new[n])
        sp.ellipk, sp.ellipe = _vec(_k), _vec(_e)
        yield th
    finally:
        for n in new:
            if had[n] is None:
                np.__dict__.pop(n, None)
            else:
                setattr(np, n, had[n])
        sp.ellipk, sp.ellipe = old_sp['ellipk'], old_sp['ellipe']


def quad(f):
    from scipy.integrate import quad as q
    return q(f, 0, _np.pi, limit=400, epsabs=1e-12)[0]


def reference(M, th, kind, r, m):
    """Kxit: 2r/pi int_0^pi/2 sin^2(2t)/(sqrt((1+r)^2-4r cos^2 t) ((r-cos 2t)^2 cos^2 chi + sin^2 2t)) dt
    Kzt: r m sqrt(1+m^2)/pi int_0^pi sin^2 p/(sqrt D (D + m^2 sin^2 p)) dp, D = 1+r^2-2 r cos p"""
    np = M.np

    def f(p):
        D = 1 + r * r - 2 * r * np.cos(p)
        s2 = np.sin(p) ** 2
        if kind == 'zt':
            return r * m * np.sqrt(1 + m * m) / M.pi * s2 / (np.sqrt(D) * (D + m * m * s2))
        # (r-cos p)^2 cos^2 chi + sin^2 p = (D + m^2 sin^2 p)/(1+m^2)
        return r / M.pi * s2 * (1 + m * m) / (np.sqrt(D) * (D + m * m * s2))
    return 2 * f(2 * th) if M.sym else quad(f)


def oye(M, r):
    return (r + M.q(4, 10) * r ** 3 + M.q(4, 10) * r ** 5) / 2


def inputs(M, n, m0=False):
    r = [M.between('r%d' % i, 0, 1, (0.2, 0.9)) for i in range(n)]
    for x in r:
        M.assume(x, '>', M.q(1, 10**6))
        M.assume(x, '<', M.q(95, 100))
    if m0:
        return r, 0 * r[0] if not M.sym else 0
    m = M.var('m', (0.3, 2))
    M.assume(m * m, '>', M.q(1, 100))
    return r, m


def same(M, label, a, b, **k):
    """equality; on the real code a value that is not finite is never equal"""
    if not M.sym and not _np.all(_np.isfinite(_np.asarray(a, dtype=float))):
        M.true(label, False)
        return
    M.eq(label, a, b, **k)


def kxit(n, what):
    def run(M):
        r, m = inputs(M, n, what == 'straight')
        with azimuth(M, what != 'straight') as th:
            A = M.arr(r)
            B = M.copy(A)
            o = M.wiz.VortexCylinderSkewed.fKxit(A, m)
            M.true('three outputs', len(o) == 3)
            same(M, 'input unchanged', A, B, exact=True)
            for k in range(3):
                M.shape('output %d' % k, o[k], (n,))
            for i in range(n):
                ref = reference(M, th, 'xit', r[i], m)
                got = o[0][i]
                if M.sym and what == 'straight':
                    s2 = NODE['s2']
                    k2 = 4 * r[i] / ((1 + r[i]) * (1 + r[i]))
                    d = M.np.sqrt(1 - k2 * s2)
                    got = got + 2 / (M.pi * (1 + r[i])) * ((1 - 2 * s2) / d + k2 * s2 * (1 - s2) / d ** 3)
                same(M, 'closed form %d' % i, got, ref, tol=1e-6)
                same(M, 'numerical integral %d' % i, o[1][i], ref, tol=2e-3)
                same(M, 'approximation %d' % i, o[2][i], oye(M, r[i]))
    return run


def kzt(n, nout):
    def run(M):
        r, m = inputs(M, n)
        with azimuth(M, True) as th:
            A = M.arr(r)
            B = M.copy(A)
            f = M.wiz.VortexCylinderSkewed.fKzt
            o = f(A, m) if nout is None else f(A, m, nout=nout)
            same(M, 'input unchanged', A, B, exact=True)
            k = 2 if nout is None else nout
            if k == 1:
                M.shape('one output', o, (n,))
                o = (o,)
            M.true('number of outputs', len(o) == k)
            for j in range(k):
                M.shape('output %d' % j, o[j], (n,))
                for i in range(n):
                    if j == 2:
                        same(M, 'approximation %d' % i, o[2][i], oye(M, r[i]))
                    else:
                        same(M, 'output %d point %d' % (j, i), o[j][i], reference(M, th, 'zt', r[i], m), tol=1e-6 if j == 0 else 2e-3)
    return run


def axis(kind, m0):
    """no expansion on the axis; a point beside it in the same array"""
    def run(M):
        r, m = inputs(M, 1, m0)
        with azimuth(M, not m0):
            A = M.arr([0 * r[0], r[0]])
            w = M.wiz.VortexCylinderSkewed
            o = w.fKxit(A, m) if kind == 'xit' else w.fKzt(A, m, nout=6)
            for j, v in enumerate(o):
                same(M, 'output %d' % j, v[0], 0 * r[0], scale=1e-6)
    return run


def parity(kind):
    """reversing the skew keeps the axial expansion and reverses the other one"""
    def run(M):
        r, m = inputs(M, 1)
        with azimuth(M, True):
            w = M.wiz.VortexCylinderSkewed
            f = (lambda m: w.fKxit(M.arr(r), m)) if kind == 'xit' else (lambda m: w.fKzt(M.arr(r), m, nout=6))
            a, b = f(m), f(-m)
            for j, (x, y) in enumerate(zip(a, b)):
                s = 1 if kind == 'xit' or j == 2 else -1
                same(M, 'output %d' % j, x[0], s * y[0])
    return run


def refuse(M):
    r, _ = inputs(M, 1)
    with azimuth(M, True):
        M.raises('zero skew', Exception, lambda: M.wiz.VortexCylinderSkewed.fKzt(M.arr(r), 0))


def cases(tier):
    th = tier == 'thorough'
    A = dict(assume_defined=True, overrides=lambda: {'elliptic.ellipticPiCarlson': _vec(_pi)})
    b = 'every radius in (1e-6,0.95), every skew, every angle; %d radii in the array'
    cs = []
    for n in (1, 2, 3) if th else (1, 2):
        cs.append(Case('kxit_skew%d' % n, kxit(n, 'skew'), b % n, **A))
        cs.append(Case('kxit_straight%d' % n, kxit(n, 'straight'), b % n, **A))
        for q in (None, 1, 2, 3, 4, 5, 6):
            if n == 1 or q in (1, 6):
                cs.append(Case('kzt%d_%s' % (n, q), kzt(n, q), b % n, **A))
    for k in ('xit', 'zt'):
        cs.append(Case('axis_' + k, axis(k, False), 'axis, every skew', **A))
        cs.append(Case('parity_' + k, parity(k), 'every radius and skew', **A))
    cs.append(Case('axis_xit_straight', axis('xit', True), 'axis', **A))
    cs.append(Case('refuse', refuse, 'zero skew', **A))
    return cs
