"""C20: self-similar induction: closed form, centreline value, zero downstream, sign, monotony in r, shape of the input"""
from symwiz.harness import Case
from .common import scale_of


def setup(M, cust, up=None):
    x, y, z = M.var('x', (0.2, 2)), M.var('y', (0.2, 2)), M.var('z', (-3, 1))
    g, R = M.var('gamma', (0.5, 2)), M.pos('R')
    k, lam, eta = {}, M.q('0.587'), M.q('1.32')
    if cust:
        lam, eta = M.pos('lambda'), M.pos('eta')
        k = dict(lambda_=lam, eta=eta)
    return x, y, z, g, R, k, lam, eta


def form(M, r2, z, g, R, lam, eta):
    np = M.np
    s = np.sqrt(z * z + R * R)
    r12 = np.sqrt(lam * (eta + (z / R) ** 2)) * R
    return g / 2 * (1 + z / s) * (1 / np.cosh(np.sqrt(M.q(2)) * np.sqrt(r2) / r12)) ** M.q(8, 9)


def closed(cust):
    def run(M):
        x, y, z, g, R, k, lam, eta = setup(M, cust)
        u = M.wiz.SelfSimilar.ss_u(M.arr([x]), M.arr([y]), M.arr([z]), g, R=R, **k)
        M.shape('u', u, (1,))
        if M.split(z, '>', 0):
            M.eq('downstream', u[0], 0 * z)
        else:
            M.eq('closed form', u[0], form(M, x * x + y * y, z, g, R, lam, eta))
    return run


def axis(cust):
    def run(M):
        x, y, z, g, R, k, lam, eta = setup(M, cust)
        M.assume(z, '<=', 0)
        u = M.wiz.SelfSimilar.ss_u(M.arr([0 * x]), M.arr([0 * x]), M.arr([z]), g, R=R, **k)
        M.eq('centreline', u[0], g / 2 * (1 + z / M.np.sqrt(z * z + R * R)))
    return run


def sign(M):
    x, y, z, g, R, k, lam, eta = setup(M, True)
    u = M.wiz.SelfSimilar.ss_u(M.arr([x]), M.arr([y]), M.arr([z]), g, R=R, **k)[0]
    M.ge('sign of the strength', u * g, 0)
    c = M.wiz.SelfSimilar.ss_u(M.arr([0 * x]), M.arr([0 * x]), M.arr([z]), g, R=R, **k)[0]
    M.ge('largest on the centreline', (c - u) * g, 0)


def mixed(M):
    """points upstream, on the plane and downstream in one array"""
    x, y = M.var('x', (0.2, 2)), M.var('y', (0.2, 2))
    zs = [M.var('z%d' % i, (-2, 2)) for i in range(3)]
    g, R = M.var('gamma', (0.5, 2)), M.pos('R')
    f = M.wiz.SelfSimilar.ss_u
    u = f(M.arr([x, y, x]), M.arr([y, x, x]), M.arr(zs), g, R=R)
    for i, (a, b, c) in enumerate(zip([x, y, x], [y, x, x], zs)):
        if M.split(c, '>', 0):
            M.eq('downstream %d' % i, u[i], 0 * c)
        else:
            M.eq('upstream %d' % i, u[i], form(M, a * a + b * b, c, g, R, M.q('0.587'), M.q('1.32')))


def plane(M):
    x, y, z, g, R, k, lam, eta = setup(M, True)
    u = M.wiz.SelfSimilar.ss_u(M.arr([x]), M.arr([y]), M.arr([0 * z]), g, R=R, **k)
    M.eq('rotor plane', u[0], form(M, x * x + y * y, 0 * z, g, R, lam, eta))


def shape2(M):
    v = [M.var('v%d' % i) for i in range(6)]
    u = M.wiz.SelfSimilar.ss_u(M.arr(v[:2], (2, 1)), M.arr(v[2:4], (2, 1)), M.arr(v[4:], (2, 1)), M.var('g'), R=M.pos('R'))
    M.shape('u', u, (2, 1))


def radial(M):
    """radial derivative has the sign opposite to the strength"""
    r, z = M.pos('r', (0.2, 2)), M.var('z', (-3, 0))
    g, R = M.var('gamma', (0.5, 2)), M.pos('R')
    M.assume(z, '<', 0)
    lam, eta = M.pos('lambda'), M.pos('eta')
    f = lambda r: (M.wiz.SelfSimilar.ss_u(M.arr([r]), M.arr([0 * r]), M.arr([z]), g, R=R, lambda_=lam, eta=eta)[0],)
    u, d = M.grad(f, (r,))
    M.le('decreasing', d[0][0] * g, 0)


def cases(tier):
    return [Case('closed_default', closed(False), 'one point'), Case('closed_custom', closed(True), 'one point, any shape constants'),
            Case('axis', axis(False), 'one point on the axis'), Case('axis_custom', axis(True), 'one point on the axis'),
            Case('sign', sign, 'one point'), Case('mixed', mixed, '3 points', cost=2), Case('plane', plane, 'one point, z=0'),
            Case('shape', shape2, 'shape (2,1)'), Case('radial', radial, 'radial derivative')]
