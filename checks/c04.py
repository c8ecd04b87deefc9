"""C04: closed forms of the element velocities: on the axis, in the rotor plane, at the rim and at a general point"""
from symwiz.harness import Case
from .common import call1, unit3, sc1


def K(M, m):
    return M.wiz.VortexCylinder.ellipk(m)


def EE(M, m):
    return M.wiz.VortexCylinder.ellipe(m)


def PI(M, n, m):
    o = M.wiz.VortexCylinder.ellipticPiCarlson(M.arr([n]), M.arr([m]))
    return o[0]


def vec(M, o, x, y, r, ur, uz, pol, ut=0):
    """compare an output (polar or Cartesian) with a polar reference"""
    if pol and len(o) == 2:
        M.eq('ur', o[0], ur, scale=1e-6)
        M.eq('uz', o[1], uz, scale=1e-6)
    elif pol:
        M.eq('ur', o[0], ur, scale=1e-6)
        M.eq('upsi', o[1], ut, scale=1e-6)
        M.eq('uz', o[2], uz, scale=1e-6)
    else:
        M.eq('ux', o[0] * r, ur * x - ut * y, scale=1e-6)
        M.eq('uy', o[1] * r, ur * y + ut * x, scale=1e-6)
        M.eq('uz', o[2], uz, scale=1e-6)


# ------------------------------------------------------------------ axis
def axis(fn, pol, eps=False):
    def run(M):
        z, g, R = M.var('z', (-2, 2)), M.var('g', (0.5, 2)), M.pos('R')
        zero = 0 * z
        s = lambda v: M.np.sqrt(v)
        w = M.wiz
        k = {'epsilon': M.pos('eps', (0.05, 0.2))} if eps else {}
        Rz = R * R + z * z
        if fn == 'ring':
            M.assume(g, '!=')
            o = call1(M, w.VortexRing.ring_u, zero, zero, z, Gamma=g, R=R, polar_out=pol, **k)
            ref = g * R * R / (2 * Rz * s(Rz))
        elif fn == 'ring_polar':
            z0 = M.var('z0')
            if eps:
                M.assume(k['epsilon'], '<', R)
            o = call1(M, w.VortexRing.ring_u_polar, zero, z, Gamma=g, r0=R, z0=z0, **k)
            d = R * R + (z - z0) * (z - z0)
            ref = g * R * R / (2 * d * s(d))
        elif fn == 'vc':
            o = call1(M, w.VortexCylinder.vc_tang_u, zero, zero, z, gamma_t=g, R=R, polar_out=pol, **k)
            ref = g / 2 * (1 + z / s(Rz))
        elif fn == 'vcff':
            o = call1(M, w.VortexCylinder.vc_tang_u_doublet, zero, zero, z, gamma_t=g, R=R, polar_out=pol, r_bar_Cut=6)
            if M.split(z, '>', 6 * R):
                ref = 0 * z   # documented: no velocity on the doublet line itself
            elif M.split(z, '<', -6 * R):
                M.assume(z, '<', -M.q(1, 10**6))
                ref = g * R * R / (4 * z * z)
            else:
                ref = g / 2 * (1 + z / s(Rz))
        elif fn == 'cyl':
            z1, L = M.var('z1', (-2, 0)), M.pos('L')
            o = call1(M, w.VortexCylinder.cylinder_tang_u, zero, zero, z, gamma_t=g, R=R, z1=z1, z2=z1 + L, polar_out=pol)
            a, b = z - z1, z - z1 - L
            ref = g / 2 * (a / s(R * R + a * a) - b / s(R * R + b * b))
        elif fn == 'longi':
            o = call1(M, w.VortexCylinder.vc_longi_u, zero, zero, z, gamma_l=g, R=R, polar_out=pol)
            ref = 0 * z
        elif fn == 'ss':
            M.assume(z, '<=')
            M.eq('uz', w.SelfSimilar.ss_u(M.arr([zero]), M.arr([zero]), M.arr([z]), g, R=R)[0], g / 2 * (1 + z / s(Rz)), scale=1e-6)
            return
        for c in o[:-1]:
            M.eq('transverse', c, 0, scale=1e-6)
        M.eq('axial', o[-1], ref, scale=1e-6)
    return run


# ------------------------------------------------------------------ rotor plane
def plane(fn, pol, eps=False):
    def run(M):
        x, y = M.var('x', (0.2, 2)), M.var('y', (0.2, 2))
        g, R = M.var('g', (0.5, 2)), M.pos('R')
        r = M.np.sqrt(x * x + y * y)
        w = M.wiz
        z = 0 * x
        M.assume((r - R) * (r - R), '>=', R * R / M.q(10**8))
        if fn == 'vc':
            o = call1(M, w.VortexCylinder.vc_tang_u, x, y, z, gamma_t=g, R=R, polar_out=pol)
        elif fn == 'vcff':
            M.assume(x * x + y * y, '>', M.q(1, 10**8))
            o = call1(M, w.VortexCylinder.vc_tang_u_doublet, x, y, z, gamma_t=g, R=R, polar_out=pol, r_bar_Cut=M.q(3, 2))
        elif fn == 'longi':
            o = call1(M, w.VortexCylinder.vc_longi_u, x, y, z, gamma_l=g, R=R, polar_out=pol)
            sw = 0 if M.split(r, '<', R) else g * R / (2 * r)
            vec(M, o, x, y, r, 0, 0, pol, ut=sw)
            return
        M.eq('uz', o[-1], g / 2 if M.split(r, '<', R) else 0, scale=1e-6)
    return run


def rim(fn):
    def run(M):
        e = unit3(M)
        g, R, z = M.var('g', (0.5, 2)), M.pos('R'), M.var('z', (-2, 2))
        cx = M.root('cx', 1 - e[0] * e[0])
        x, y = R * e[0], R * cx          # any azimuth
        w = M.wiz
        if fn == 'vc':
            o = call1(M, w.VortexCylinder.vc_tang_u, x, y, 0 * z, gamma_t=g, R=R)
            M.eq('ur', o[0], 0)
            M.eq('uz', o[1], g / 4)
        elif fn == 'vc_off':
            M.assume(z * z, '>', R * R / M.q(10**12))
            o = call1(M, w.VortexCylinder.vc_tang_u, x, y, z, gamma_t=g, R=R)
            m = 4 * R * R / (4 * R * R + z * z)
            k = M.np.sqrt(m)
            M.eq('uz', o[1], g / 2 * (M.q(1, 2) + z * k / (2 * M.pi * R) * K(M, m)))
            M.eq('ur', o[0], -g / (2 * M.pi) * ((2 - m) / k * K(M, m) - 2 / k * EE(M, m)))
        elif fn == 'longi':
            o = call1(M, w.VortexCylinder.vc_longi_u, x, y, 0 * z, gamma_l=g, R=R, polar_out=True)
            M.eq('upsi', o[1], g / 4)
        elif fn == 'ring':
            o = call1(M, w.VortexRing.ring_u, x, y, 0 * z, Gamma=g, R=R)
            M.eq('ur', o[0], 0)
            M.eq('uz', o[1], g / (4 * R))
            o = call1(M, w.VortexRing.ring_u_polar, R, z, Gamma=g, r0=R, z0=z)
            M.eq('polar ur', o[0], 0)
            M.eq('polar uz', o[1], g / (4 * R))
        elif fn == 'ring_core':
            eps = M.pos('eps', (0.05, 0.2))
            M.assume(eps, '<', R)
            o = call1(M, w.VortexRing.ring_u, x, y, 0 * z, Gamma=g, R=R, epsilon=eps)
            M.eq('uz', o[1], g / (4 * M.pi * R) * (M.np.log(8 * R / eps) - M.q(1, 4)))
            o = call1(M, w.VortexRing.ring_u_polar, R, z, Gamma=g, r0=R, z0=z, epsilon=eps)
            M.eq('Saffman ur', o[0], 0)
            M.eq('Saffman uz', o[1], g / (4 * M.pi * R) * (M.np.log(16 * R / eps) - M.q(1, 4)))
        elif fn == 'cyl_fin':
            z1, L = M.var('z1', (-2, 0)), M.pos('L')
            M.assume((z - z1) * (z - z1), '>', R * R / M.q(10**8))
            M.assume((z - z1 - L) * (z - z1 - L), '>', R * R / M.q(10**8))
            o = call1(M, w.VortexCylinder.cylinder_tang_u, R, 0 * R, z, gamma_t=g, R=R, z1=z1, z2=z1 + L)

            def T(d):
                m = 4 * R * R / (4 * R * R + d * d)
                return d * M.np.sqrt(m) * K(M, m) / (4 * M.pi * R)
            M.eq('uz', o[1], g * (T(z - z1) - T(z - z1 - L)))
    return run


# ------------------------------------------------------------------ general point
def ring_ref(M, r, z, G, R):
    """Lamb / Simpson et al. closed form"""
    a2, b2 = (R + r) ** 2 + z * z, (R - r) ** 2 + z * z
    a = M.np.sqrt(a2)
    m = 4 * r * R / a2
    k, e = K(M, m), EE(M, m)
    ur = G * z / (2 * M.pi * r * a) * ((R * R + r * r + z * z) / b2 * e - k)
    uz = G / (2 * M.pi * a) * ((R * R - r * r - z * z) / b2 * e + k)
    return ur, uz


def vc_ref(M, r, z, g, R):
    a = M.np.sqrt((R + r) ** 2 + z * z)
    m = 4 * r * R / (a * a)
    n = 4 * r * R / ((R + r) ** 2)
    k, e, p = K(M, m), EE(M, m), PI(M, n, m)
    ur = g / (2 * M.pi * r) * (a * e - (r * r + R * R + z * z) / a * k)
    one = 1 if M.split(r, '<', R) else 0
    uz = g / 2 * (one + z / (M.pi * a) * (k + (R - r) / (R + r) * p))
    return ur, uz


def general(fn, pol=True, eps=False):
    def run(M):
        x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
        g, R = M.var('g', (0.5, 2)), M.pos('R')
        w = M.wiz
        if fn in ('ring_sing', 'ring_singb', 'ring_polar', 'vc_raw'):
            x, y = M.pos('r', (0.3, 2)), 0 * y
        r = M.np.sqrt(x * x + y * y)
        M.assume((r - R) * (r - R), '>=', R * R / M.q(10**8))
        M.assume(r, '>=', R / M.q(10**5))
        if fn == 'ring':
            o, ref = call1(M, w.VortexRing.ring_u, x, y, z, Gamma=g, R=R, polar_out=pol), ring_ref(M, r, z, g, R)
        elif fn == 'ring_sing':
            o, ref = w.VortexRing.ring_u_polar_singular(r, z, g, R), ring_ref(M, r, z, g, R)
        elif fn == 'ring_singb':
            o, ref = w.VortexRing.ring_u_polar_singularb(r, z, g, R), ring_ref(M, r, z, g, R)
        elif fn == 'ring_polar':
            z0 = M.var('z0', (-1, 1))
            o, ref = call1(M, w.VortexRing.ring_u_polar, r, z, Gamma=g, r0=R, z0=z0), ring_ref(M, r, z - z0, g, R)
        elif fn == 'vc':
            o, ref = call1(M, w.VortexCylinder.vc_tang_u, x, y, z, gamma_t=g, R=R, polar_out=pol), vc_ref(M, r, z, g, R)
        elif fn == 'vc_raw':
            o, ref = call1(M, w.VortexCylinder.cylinder_tang_semi_inf_u_raw, x, y, z, gamma_t=g, R=R), vc_ref(M, r, z, g, R)
        elif fn == 'cyl':
            z1, L = M.var('z1', (-2, 0)), M.pos('L')
            o = call1(M, w.VortexCylinder.cylinder_tang_u, x, y, z, gamma_t=g, R=R, z1=z1, z2=z1 + L, polar_out=pol)
            A, B = vc_ref(M, r, z - z1, g, R), vc_ref(M, r, z - z1 - L, g, R)
            ref = A[0] - B[0], A[1] - B[1]
        elif fn == 'longi':
            o = call1(M, w.VortexCylinder.vc_longi_u, x, y, z, gamma_l=g, R=R, polar_out=pol)
            a = M.np.sqrt((R + r) ** 2 + z * z)
            m, n = 4 * r * R / (a * a), 4 * r * R / ((R + r) ** 2)
            one = 0 if M.split(r, '<', R) else 1
            vec(M, o, x, y, r, 0, 0, pol, ut=g * R / (2 * r) * (one + z / (M.pi * a) * (K(M, m) - (R - r) / (R + r) * PI(M, n, m))))
            return
        vec(M, o, x, y, r, ref[0], ref[1], pol)
    return run


def inversion(kind):
    """points inverse in the cylinder: the jump part and the mean part of the sheet velocity separate"""
    def run(M):
        r, z, g, R = M.pos('r', (0.3, 0.9)), M.var('z', (-2, 2)), M.var('g', (0.5, 2)), M.pos('R', (1, 2))
        M.assume(r, '<=', R * M.q(9999, 10000))
        M.assume(r, '>=', R / M.q(10**5))
        w = M.wiz.VortexCylinder
        a = M.np.sqrt((R + r) ** 2 + z * z)
        m, n = 4 * r * R / (a * a), 4 * r * R / ((R + r) ** 2)
        ri, zi = R * R / r, z * R / r
        t = z / (M.pi * a)
        J = t * (R - r) / (R + r) * PI(M, n, m)   # = sign(z)/2 (1-Lambda0), tends to sign(z)/2 at the sheet
        if kind == 'tang':
            i, o = call1(M, w.vc_tang_u, r, 0 * r, z, gamma_t=g, R=R)[1], call1(M, w.vc_tang_u, ri, 0 * r, zi, gamma_t=g, R=R)[1]
            M.eq('sum', i + o, g / 2 * (1 + 2 * t * K(M, m)))
            M.eq('jump', i - o, g / 2 * (1 + 2 * J))
        else:
            i, o = call1(M, w.vc_longi_u, r, 0 * r, z, gamma_l=g, R=R, polar_out=True)[1] * r, call1(M, w.vc_longi_u, ri, 0 * r, zi, gamma_l=g, R=R, polar_out=True)[1] * ri
            M.eq('sum', i + o, g * R / 2 * (1 + 2 * t * K(M, m)))
            M.eq('jump', o - i, g * R / 2 * (1 + 2 * J))
    return run


def root(fn, pol):
    def run(M):
        x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
        G = M.var('G', (0.5, 2))
        r2 = x * x + y * y
        M.assume(r2, '>', M.q(1, 10**4))
        r, a = M.np.sqrt(r2), M.np.sqrt(r2 + z * z)
        f = {'vl': lambda: M.wiz.VortexLine.vl_semiinf_straight_u, 'vc': lambda: M.wiz.VortexCylinder.vc_root_u, 'svc': lambda: M.wiz.VortexCylinderSkewed.svc_root_u}[fn]()
        o = call1(M, f, x, y, z, Gamma_r=G, polar_out=pol)
        vec(M, o, x, y, r, 0, 0, pol, ut=G / (4 * M.pi * r) * (1 + z / a))
    return run


def line(M):
    x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
    e = unit3(M)
    G = M.var('G', (0.5, 2))
    n = M.np.sqrt(x * x + y * y + z * z)
    den = n * (n - (x * e[0] + y * e[1] + z * e[2]))
    M.assume(den, '>=', M.q(1, 10**6))
    M.assume(n * n, '>=', M.q(1, 10**4))
    o = M.wiz.VortexLine.vl_semiinf_u(x, y, z, *e, G, 0, 0)
    X = (e[1] * z - e[2] * y, e[2] * x - e[0] * z, e[0] * y - e[1] * x)
    for i in range(3):
        M.eq('component %d' % i, o[i], G / (4 * M.pi) * X[i] / den)


def doublet(M):
    d = [M.var(c, (0.3, 2)) for c in 'xyz']
    x0, m = [M.var(c + '0', (-0.3, 0.3)) for c in 'xyz'], [M.var('m' + c) for c in 'xyz']
    r = [a - b for a, b in zip(d, x0)]
    n2 = r[0] ** 2 + r[1] ** 2 + r[2] ** 2
    M.assume(n2 ** M.q(3, 2), '>=', M.q(1, 1000))
    o = call1(M, M.wiz.VortexDoublet.doublet_u, *d, m=m, x0=x0)
    mr = sum(a * b for a, b in zip(m, r))
    n3 = n2 * M.np.sqrt(n2)
    for i in range(3):
        M.eq('component %d' % i, o[i], (3 * mr * r[i] / n2 - m[i]) / (4 * M.pi * n3))
    o = call1(M, M.wiz.VortexDoublet.doublet_u, *d, m=m)
    # default position: origin
    q2 = d[0] ** 2 + d[1] ** 2 + d[2] ** 2
    M.assume(q2 ** M.q(3, 2), '>=', M.q(1, 1000))
    md = sum(a * b for a, b in zip(m, d))
    M.eq('origin', o[0], (3 * md * d[0] / q2 - m[0]) / (4 * M.pi * q2 * M.np.sqrt(q2)))


def doublet_polar(M):
    r, z, z0, m = M.pos('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('z0'), M.var('m')
    d = z - z0
    n2 = r * r + d * d
    M.assume(n2 ** M.q(3, 2), '>=', M.q(1, 1000))
    n = M.np.sqrt(n2)
    o = call1(M, M.wiz.VortexDoublet.doublet_u_polar, r, z, m, z0=z0)
    M.eq('ur', o[0], 3 * m * r * d / (4 * M.pi * n2 * n2 * n))
    M.eq('uz', o[1], m * (2 * d * d - r * r) / (4 * M.pi * n2 * n2 * n))


def dline_polar(where):
    def run(M):
        r, z, m = M.pos('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('m')
        f = M.wiz.VortexDoublet.doublet_line_polar_u
        if where == 'axis':
            M.assume(z, '<', -M.q(1, 10**6))
            o = call1(M, f, 0 * r, z, m)
            M.eq('ur', o[0], 0)
            M.eq('uz', o[1], m / (4 * M.pi * z * z))
            return
        M.assume(r, '>', M.q(1, 10**4))
        if where == 'plane':
            z = 0 * z
        else:
            M.assume(z * z, '>', M.q(1, 10**8))
        n2 = r * r + z * z
        n3 = n2 * M.np.sqrt(n2)
        o = call1(M, f, r, z, m)
        M.eq('ur', o[0], -m * r / (4 * M.pi * n3))
        M.eq('uz', o[1], -m * z / (4 * M.pi * n3))
    return run


def vp(M):
    x, y, px, py = [M.var(n) for n in ('x', 'y', 'px', 'py')]
    G = M.var('G', (0.5, 2))
    dx, dy = x - px, y - py
    r2 = dx * dx + dy * dy
    M.assume(r2, '>', M.q(1, 10**4))
    u = M.wiz.VortexPoint.vp_u(M.arr([x, y]), M.arr([px, py]), G, bViscous=False)
    M.eq('u', u[0], -G * dy / (2 * M.pi * r2))
    M.eq('v', u[1], G * dx / (2 * M.pi * r2))


def cases(tier):
    cs = []
    for f in ('ring', 'vc', 'vcff', 'cyl', 'longi'):
        for p in (True, False):
            cs.append(Case('axis_%s_%s' % (f, 'pol' if p else 'cart'), axis(f, p), 'r=0, any z'))
    for f in ('ring', 'vc'):
        cs.append(Case('axis_%s_eps' % f, axis(f, True, True), 'r=0, any z, regularised'))
    cs += [Case('axis_ring_polar', axis('ring_polar', True), 'r=0, any z'), Case('axis_ring_polar_eps', axis('ring_polar', True, True), 'r=0, any z'),
           Case('axis_ss', axis('ss', True), 'r=0, z<=0')]
    for f in ('vc', 'vcff', 'longi'):
        for p in (True, False):
            cs.append(Case('plane_%s_%s' % (f, 'pol' if p else 'cart'), plane(f, p), 'z=0, one point, any radius ratio', assume_defined=True, cost=2))
    for f in ('vc', 'vc_off', 'longi', 'ring', 'ring_core', 'cyl_fin'):
        cs.append(Case('rim_' + f, rim(f), 'r=R, any azimuth', assume_defined=True))
    for f in ('ring', 'vc', 'cyl', 'longi'):
        for p in (True, False):
            cs.append(Case('gen_%s_%s' % (f, 'pol' if p else 'cart'), general(f, p), 'one point', assume_defined=True, cost=3))
    for f in ('ring_sing', 'ring_singb', 'ring_polar', 'vc_raw'):
        cs.append(Case('gen_' + f, general(f), 'one point', assume_defined=True, cost=2))
    for k in ('tang', 'longi'):
        cs.append(Case('inversion_' + k, inversion(k), 'one point and its inverse', assume_defined=True))
    for f in ('vl', 'vc', 'svc'):
        for p in (True, False):
            cs.append(Case('root_%s_%s' % (f, 'pol' if p else 'cart'), root(f, p), 'one point off the axis', assume_defined=True))
    cs += [Case('line', line, 'one point, any direction', assume_defined=True), Case('doublet', doublet, 'one point', assume_defined=True),
           Case('doublet_polar', doublet_polar, 'one point', assume_defined=True), Case('point_vortex', vp, 'one point', assume_defined=True)]
    for w_ in ('gen', 'plane', 'axis'):
        cs.append(Case('dline_' + w_, dline_polar(w_), 'one point', assume_defined=True))
    return cs
