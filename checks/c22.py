"""C22: smoothed vortex kernels against their published factors, range of the factors, regularised rings and cylinders equal
to the ideal ones away from their cores, refusal of unknown models"""
from symwiz.harness import Case
from .common import unit3, call1, sc1


# one minus polynomial times Gaussian, coefficients of the polynomial in rho^2 (fractions)
KERNELS = {
    (1, 2): ([(1, 1)], 1), (1, 4): ([(1, 1), (-1, 1)], 1), (1, 6): ([(1, 1), (-2, 1), (1, 2)], 1),
    (1, 8): ([(1, 1), (-3, 1), (3, 2), (-1, 6)], 1),
    (2, 2): ([(1, 1)], 1), (2, 4): ([(1, 1), (-1, 2)], 2), (2, 6): ([(1, 1), (-1, 1), (1, 8)], 2),
    (2, 8): ([(1, 1), (-3, 2), (3, 8), (-1, 48)], 2), (2, 10): ([(1, 1), (-2, 1), (3, 4), (-1, 12), (1, 384)], 2)}


def factor(M, key, r2, core):
    if key is None:
        return M.q(1)
    c, d = KERNELS[key]
    x = r2 / (core * core)
    p, q = 0, 1
    for a, b in c:
        p = p + M.q(a, b) * q
        q = q * x
    return 1 - p * M.np.exp(-x / d)


def vps(ncp, nv, dim, key, order0=False, at=None):
    """field of nv vortices at ncp points; at=(icp,iv): that point lies on that vortex"""
    def run(M):
        cp = [[M.var('c%d%d' % (i, k), (-2, 2)) for k in range(dim)] for i in range(ncp)]
        xv = [[M.var('v%d%d' % (i, k), (-2, 2)) for k in range(dim)] for i in range(nv)]
        G = [M.var('G%d' % i, (0.3, 2)) for i in range(nv)]
        core = [M.pos('core%d' % i, (0.3, 2)) for i in range(nv)]
        if at:
            cp[at[0]][0], cp[at[0]][1] = xv[at[1]][0], xv[at[1]][1]
        ref = []
        for i in range(ncp):
            u = [0, 0]
            for j in range(nv):
                dx, dy = cp[i][0] - xv[j][0], cp[i][1] - xv[j][1]
                r2 = dx * dx + dy * dy
                if at == (i, j):
                    continue
                M.assume(r2, '>=', M.q(1, 10**10))
                f = G[j] / (2 * M.pi * r2) * factor(M, key, r2, core[j])
                u = [u[0] - f * dy, u[1] + f * dx]
            ref.append(u + ([0] if dim == 3 else []))
        kw = {}
        if key:
            kw = dict(SmoothModel=key[0], KernelOrder=key[1], SmoothParam=M.arr(core))
        elif order0:
            kw = dict(SmoothModel=1, KernelOrder=2, SmoothParam=M.arr(core))
        A, B = M.arr(cp), M.arr(xv)
        U = M.wiz.VortexPoint.vps_u(A, B, M.arr(G), **kw)
        M.shape('U', U, (ncp, dim))
        for i in range(ncp):
            for k in range(dim):
                M.eq('u%d%d' % (i, k), U[i, k], ref[i][k] + 0 * G[0], scale=1e-6)
        M.eq('points untouched', A, M.arr(cp))
        M.eq('vortices untouched', B, M.arr(xv))
    return run


def kernel_range(key):
    """second order kernels keep the velocity between zero and that of the ideal vortex"""
    def run(M):
        x, y, G, c = M.var('x', (0.2, 2)), M.var('y', (0.2, 2)), M.var('G', (0.3, 2)), M.pos('core')
        r2 = x * x + y * y
        M.assume(r2, '>=', M.q(1, 10**10))
        f = M.wiz.VortexPoint.vps_u
        o = M.arr([0 * x, 0 * x], (1, 2))
        a = f(M.arr([x, y], (1, 2)), o, M.arr([G]))
        b = f(M.arr([x, y], (1, 2)), o, M.arr([G]), SmoothModel=key[0], KernelOrder=key[1], SmoothParam=M.arr([c]))
        for k in range(2):
            M.ge('same sign %d' % k, b[0, k] * a[0, k], 0)
            M.ge('not larger %d' % k, (a[0, k] - b[0, k]) * a[0, k], 0)
    return run


def refuse_points(M):
    f = M.wiz.VortexPoint.vps_u
    x, G, c = [M.var('x%d' % i) for i in range(6)], M.arr([M.var('G')]), M.arr([M.pos('c')])
    A, B, B3 = M.arr(x[:2], (1, 2)), M.arr(x[2:4], (1, 2)), M.arr(x[3:], (1, 3))
    M.raises('dimensions', Exception, lambda: f(A, B3, G))
    M.raises('dimensions', Exception, lambda: f(B3, A, G))
    for m in (3, -1, 7):
        M.raises('unknown model %d' % m, Exception, lambda: f(A, B, G, SmoothModel=m, SmoothParam=c))
    for m, o in ((1, 3), (1, 10), (1, 1), (2, 3), (2, 12), (2, 5)):
        M.raises('unknown order %d %d' % (m, o), Exception, lambda: f(A, B, G, SmoothModel=m, KernelOrder=o, SmoothParam=c))


def vp(cols, viscous, arg):
    def run(M):
        x, y = [M.var('x%d' % i, (-2, 2)) for i in range(cols)], [M.var('y%d' % i, (-2, 2)) for i in range(cols)]
        px, py, G, rc = M.var('px', (-1, 1)), M.var('py', (-1, 1)), M.var('G', (0.3, 2)), M.pos('rc')
        kw = dict(bViscous=True, rcore=rc) if viscous else {}
        cp = M.arr([x, y]) if cols > 1 else M.arr([x[0], y[0]])
        pv = M.arr([[px] * cols, [py] * cols]) if cols > 1 else M.arr([px, py])
        if arg == 'default':
            G = M.q(1)
        else:
            kw['Gamma'] = G
        U, V = M.wiz.VortexPoint.vp_u(cp, pv, **kw)
        for i in range(cols):
            dx, dy = x[i] - px, y[i] - py
            r2 = dx * dx + dy * dy
            M.assume(r2, '>=', M.q(1, 10**6))
            f = G / (2 * M.pi * r2) * (1 - M.np.exp(-r2 / (rc * rc)) if viscous else 1)
            M.eq('U%d' % i, U[i] if cols > 1 else U, -f * dy)
            M.eq('V%d' % i, V[i] if cols > 1 else V, f * dx)
    return run


# ------------------------------------------------------------------ semi-infinite line
def line(M):
    x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
    e = unit3(M)
    G, t = M.var('Gamma', (0.5, 2)), M.pos('t', (0.1, 3))
    n = M.np.sqrt(x * x + y * y + z * z)
    den = n * (n - (x * e[0] + y * e[1] + z * e[2]))
    M.assume(den, '>=', M.q(1, 10**6))
    M.assume(n, '>=', M.q(1, 10**3))
    c = (e[1] * z - e[2] * y, e[2] * x - e[0] * z, e[0] * y - e[1] * x)
    return (x, y, z), e, G, t, den, c


def dist(M, c):
    return M.np.sqrt(c[0] ** 2 + c[1] ** 2 + c[2] ** 2)


def core(M, model, h, t, den):
    if model == 1:
        return (h / t) ** 2 if M.split(h, '<', t) else M.q(1)
    if model == 2:
        return 1 - M.np.exp(-M.q('1.25643') * (h / t) ** 2)
    if model == 3:
        return h * h / M.np.sqrt(t ** 4 + h ** 4)
    if model == 5:
        return den / (den + t)
    return M.q(1)


def viscous(model):
    def run(M):
        p, e, G, t, den, c = line(M)
        f = M.wiz.VortexLine.vl_semiinf_u
        u = f(*p, *e, G, model, t)
        K = core(M, model, dist(M, c), t, den)
        for k in range(3):
            M.eq('velocity %d' % k, u[k], G * K / (4 * M.pi * den) * c[k], scale=1e-6)
    return run


def core_range(model):
    """factor between zero and one (one outside of a Rankine core); with the general formula above it is enough to look at
    the line along z and a point of the plane y=0"""
    def run(M):
        x, z, G, t = M.var('x', (0.3, 2)), M.var('z', (-2, 2)), M.var('Gamma', (0.5, 2)), M.pos('t', (0.1, 3))
        M.assume(x * x, '>=', M.q(1, 100))
        M.assume(z, '<=', 10)
        f, o, one = M.wiz.VortexLine.vl_semiinf_u, 0 * x, M.q(1)
        u, v = f(x, o, z, o, o, one, G, 0, t), f(x, o, z, o, o, one, G, model, t)
        M.ge('same sign', u[1] * v[1], 0)
        M.ge('not larger', u[1] * (u[1] - v[1]), 0)
        for k in (0, 2):
            M.eq('component %d' % k, v[k], o)
        if model == 1 and M.split(x * x, '>=', t * t):
            M.eq('ideal outside', v[1], u[1])
    return run


def on_line(model):
    def run(M):
        e = unit3(M)
        s = M.pos('s')
        u = M.wiz.VortexLine.vl_semiinf_u(s * e[0], s * e[1], s * e[2], *e, M.var('Gamma'), model, M.pos('t'))
        for k in range(3):
            M.eq('zero on the line %d' % k, M.nparr(u).reshape(-1)[k], 0 * s)
    return run


# ------------------------------------------------------------------ rings and cylinders
def ring_outside(method):
    def run(M):
        r, z, z0 = M.pos('r', (0.3, 2.5)), M.var('z', (-2, 2)), M.var('z0', (-1, 1))
        G, R, e = M.var('Gamma', (0.5, 2)), M.pos('R'), M.pos('eps', (0.05, 0.3))
        rho2 = (r - R) * (r - R) + (z - z0) * (z - z0)
        M.assume(4 * rho2, '>=', e * e)
        M.assume((r - R) * (r - R), '>=', R * R / M.q(10**8))
        if method == 'linear':
            M.assume(e, '<', 2 * R)
        f = M.wiz.VortexRing.ring_u_polar
        u = call1(M, f, r, z, Gamma=G, r0=R, z0=z0, epsilon=e, reg_method=method)
        v = call1(M, f, r, z, Gamma=G, r0=R, z0=z0)
        for a, b, n in zip(u, v, ('ur', 'uz')):
            M.eq(n, a, b)
    return run


def ring_inside(M):
    """Saffman: constant axial velocity in the core"""
    r, z, z0 = M.pos('r', (0.9, 1.1)), M.var('z', (-0.1, 0.1)), M.var('z0', (-0.1, 0.1))
    G, R, e = M.var('Gamma', (0.5, 2)), M.pos('R', (0.95, 1.05)), M.pos('eps', (0.2, 0.6))
    M.assume(4 * (r - R) * (r - R) + 4 * (z - z0) * (z - z0), '<', e * e)
    M.assume(r, '>=', R / 100)
    u = call1(M, M.wiz.VortexRing.ring_u_polar, r, z, Gamma=G, r0=R, z0=z0, epsilon=e)
    M.eq('ur', u[0], 0 * r)
    M.eq('uz', u[1], G / (4 * M.pi * R) * (M.np.log(16 * R / e) - M.q(1, 4)))


def ring_cart(M):
    """ring_u with a core differs only at the ring itself"""
    x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
    G, R, e = M.var('Gamma', (0.5, 2)), M.pos('R'), M.pos('eps', (0.05, 0.3))
    r2 = x * x + y * y
    M.assume((r2 - R * R) * (r2 - R * R), '>=', R * R * R * R / M.q(10**8))
    for pol in (True, False):
        u = call1(M, M.wiz.VortexRing.ring_u, x, y, z, Gamma=G, R=R, epsilon=e, polar_out=pol)
        v = call1(M, M.wiz.VortexRing.ring_u, x, y, z, Gamma=G, R=R, polar_out=pol)
        for a, b in zip(u, v):
            M.eq('pol%d' % pol, a, b)


def rim_cart(M):
    c = M.between('c', -1, 1, (-0.9, 0.9))
    s = M.root('s', 1 - c * c)
    G, R, e = M.var('Gamma', (0.5, 2)), M.pos('R'), M.pos('eps', (0.05, 0.3))
    u = call1(M, M.wiz.VortexRing.ring_u, R * c, R * s, 0 * R, Gamma=G, R=R, epsilon=e, polar_out=True)
    M.eq('ur', u[0], 0 * R)
    M.eq('uz', u[1], G / (4 * M.pi * R) * (M.np.log(8 * R / e) - M.q(1, 4)))


def cyl_upstream(fn, pol):
    def run(M):
        x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-3, -0.1))
        G, R, e = M.var('gamma', (0.5, 2)), M.pos('R'), M.pos('eps', (0.05, 0.3))
        r2 = x * x + y * y
        M.assume((r2 - R * R) * (r2 - R * R), '>=', R * R * R * R / M.q(10**8))
        M.assume(z, '<', 0)
        f = getattr(M.wiz.VortexCylinder, fn)
        u = call1(M, f, x, y, z, gamma_t=G, R=R, epsilon=e, polar_out=pol)
        v = call1(M, f, x, y, z, gamma_t=G, R=R, polar_out=pol)
        for a, b in zip(u, v):
            M.eq('u', a, b)
    return run


def cyl_reg(M):
    """downstream: every squared distance of the closed form is enlarged by the squared core"""
    r, z = M.pos('r', (0.3, 2.5)), M.var('z', (0.1, 3))
    G, R, e = M.var('gamma', (0.5, 2)), M.pos('R'), M.pos('eps', (0.05, 0.3))
    M.assume((r - R) * (r - R), '>=', R * R / M.q(10**8))
    M.assume(r, '>=', R / M.q(10**5))
    M.assume(z, '>=', 0)
    u = call1(M, M.wiz.VortexCylinder.vc_tang_u, r, 0 * r, z, gamma_t=G, R=R, epsilon=e)
    o = call1(M, M.wiz.VortexCylinder.vc_tang_u, r, 0 * r, M.np.sqrt(z * z + e * e), gamma_t=G, R=R)
    # radial velocity: that of the ideal cylinder at the distance enlarged by the core
    M.eq('ur', u[0], o[0])


def cases(tier):
    th = tier == 'thorough'
    A = dict(assume_defined=True)
    cs = []
    for cols in (1, 2):
        for v in (0, 1):
            cs.append(Case('vp_%d_%d' % (cols, v), vp(cols, v, 'given'), '%d points' % cols, **A))
    cs.append(Case('vp_default', vp(1, 0, 'default'), '1 point', **A))
    for dim in (2, 3):
        cs.append(Case('ideal_%dd' % dim, vps(2, 2, dim, None), '2 points, 2 vortices', cost=2, **A))
        for k in KERNELS:
            n = 2 if dim == 2 or th else 1
            cs.append(Case('kernel%d_%d_%dd' % (k + (dim,)), vps(n, 2, dim, k), '%d points, 2 vortices' % n, cost=2, **A))
    cs.append(Case('coincident', vps(1, 2, 2, None, at=(0, 1)), 'point on a vortex'))
    for k in KERNELS:
        cs.append(Case('coincident%d_%d' % k, vps(1, 2, 2, k, at=(0, 0)), 'point on a vortex'))
    cs += [Case('range%d_%d' % k, kernel_range(k), '1 point', **A) for k in ((1, 2), (2, 2))]
    cs.append(Case('refuse', refuse_points, 'unknown models, orders, dimensions'))
    for m in (0, 1, 2, 3, 5):
        cs.append(Case('viscous%d' % m, viscous(m), '1 point, any direction', cost=2, **A))
        cs.append(Case('on_line%d' % m, on_line(m), 'point on the line'))
        if m:
            cs.append(Case('core_range%d' % m, core_range(m), '1 point', cost=3, **A))
    for m in ('Saffman', 'linear'):
        cs.append(Case('ring_outside_' + m, ring_outside(m), '1 point outside the core', cost=2, **A))
    cs += [Case('ring_inside', ring_inside, '1 point in the core', **A), Case('ring_cart', ring_cart, '1 point', cost=2, **A), Case('rim_cart', rim_cart, 'point on the ring')]
    for p in (True, False):
        cs.append(Case('cyl_upstream_%d' % p, cyl_upstream('vc_tang_u', p), '1 point upstream', cost=2, **A))
    cs.append(Case('cyl_reg', cyl_reg, '1 point downstream', cost=2, **A))
    return cs
