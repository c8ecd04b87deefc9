"""C06: axisymmetry, agreement of polar and Cartesian outputs, mirror relations about the rotor plane"""
from symwiz.harness import Case
from .common import registry, call1, sc1, no_dline_pol, P


def setup(M, e, mode=None):
    x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
    g = M.var('g', (0.5, 2))
    M.assume(g, '!=')
    p = e.params(M)
    if mode:
        M.assume(p.cut, '>', 0)
        d2, c2 = x * x + y * y + z * z, p.cut * p.cut * p.R * p.R
        M.assume(d2, '<=' if mode == 'near' else '>', c2)
        if mode == 'far':
            no_dline_pol(M, x, y, z, p)
    e.guard(M, x, y, z, p)
    if e.name == 'dline':
        M.assume(x, '>', M.q(1, 1000))   # its threshold on |x| and |y| is taken apart elsewhere (C05)
        M.assume(y, '>', M.q(1, 1000))
    return x, y, z, g, p


def uu(M, e, x, y, z, g, p, pol=False):
    return sc1(e.u(M, M.arr([x]), M.arr([y]), M.arr([z]), g, p, pol))


def rotation(e, pol, mode=None):
    def run(M):
        x, y, z, g, p = setup(M, e, mode)
        c = M.between('c', -1, 1, (-0.8, 0.8))
        s = M.root('s', 1 - c * c)
        u, v = uu(M, e, x, y, z, g, p, pol), uu(M, e, c * x - s * y, s * x + c * y, z, g, p, pol)
        if pol or len(u) == 1:
            for i, (a, b) in enumerate(zip(u, v)):
                M.eq('component %d' % i, b, a, scale=1e-6)
        else:
            M.eq('ux', v[0], c * u[0] - s * u[1], scale=1e-6)
            M.eq('uy', v[1], s * u[0] + c * u[1], scale=1e-6)
            M.eq('uz', v[2], u[2], scale=1e-6)
    return run


def agree(e, mode=None):
    def run(M):
        x, y, z, g, p = setup(M, e, mode)
        u, v = uu(M, e, x, y, z, g, p, False), uu(M, e, x, y, z, g, p, True)
        ur, ut, uz = (v[0], 0, v[1]) if len(v) == 2 else v
        r = M.np.sqrt(x * x + y * y)
        M.eq('ux', u[0] * r, ur * x - ut * y, scale=1e-6)
        M.eq('uy', u[1] * r, ur * y + ut * x, scale=1e-6)
        M.eq('uz', u[2], uz, scale=1e-6)
    return run


def mirror(name):
    """velocity at -z from the velocity at z"""
    def run(M):
        r, z, g, R = M.pos('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('g', (0.5, 2)), M.pos('R')
        M.assume(g, '!=')
        w = M.wiz
        VR, VC = w.VortexRing, w.VortexCylinder
        if not name.startswith(('root', 'dline', 'doublet')):
            M.assume((r - R) ** 2, '>=', R * R / M.q(10**8))
        M.assume(r, '>=', R / M.q(10**5))
        eps = M.pos('eps', (0.05, 0.2))
        z0 = M.var('z0', (-1, 1))
        inside = lambda: M.split(r, '<', R)
        a1 = lambda f, *a, **k: call1(M, f, *a, **k)
        c = {'ring': lambda z: a1(VR.ring_u, r, 0 * r, z, Gamma=g, R=R),
             'ring_eps': lambda z: a1(VR.ring_u, r, 0 * r, z, Gamma=g, R=R, epsilon=eps),
             'ring_polar': lambda z: a1(VR.ring_u_polar, r, z + z0, Gamma=g, r0=R, z0=z0),
             'ring_saffman': lambda z: a1(VR.ring_u_polar, r, z + z0, Gamma=g, r0=R, z0=z0, epsilon=eps),
             'ring_linear': lambda z: a1(VR.ring_u_polar, r, z + z0, Gamma=g, r0=R, z0=z0, epsilon=eps, reg_method='linear'),
             'ring_sing': lambda z: VR.ring_u_polar_singular(r, z, g, R),
             'ring_singb': lambda z: VR.ring_u_polar_singularb(r, z, g, R),
             'cyl': lambda z: a1(VC.cylinder_tang_u, r, 0 * r, z, gamma_t=g, R=R, z1=-eps, z2=eps),
             'vc': lambda z: a1(VC.vc_tang_u, r, 0 * r, z, gamma_t=g, R=R),
             'vc_raw': lambda z: a1(VC.cylinder_tang_semi_inf_u_raw, r, 0 * r, z, gamma_t=g, R=R),
             'vcff': lambda z: a1(VC.vc_tang_u_doublet, r, 0 * r, z, gamma_t=g, R=R, r_bar_Cut=M.q(3, 2)),
             'longi': lambda z: a1(VC.vc_longi_u, r, 0 * r, z, gamma_l=g, R=R, polar_out=True),
             'root': lambda z: a1(w.VortexLine.vl_semiinf_straight_u, r, 0 * r, z, Gamma_r=g, polar_out=True),
             'doublet': lambda z: a1(w.VortexDoublet.doublet_u_polar, r, z + z0, g, z0=z0),
             'dline': lambda z: a1(w.VortexDoublet.doublet_line_polar_u, r, z, g)}[name]
        if name in ('doublet', 'dline'):
            M.assume(r, '>', M.q(1, 100))
        if name in ('dline', 'vcff'):
            M.assume(r, '>', M.q(1, 10**6))
            M.assume(z * z, '>', M.q(1, 10**8))
        if name == 'ring_linear':
            M.assume(eps, '<', R)
        u, v = c(z), c(-z)
        ur, uz = (-u[0], u[1])
        if name in ('vc', 'vc_raw', 'vcff'):
            far = name == 'vcff' and M.split(4 * (r * r + z * z), '>', 9 * R * R)
            ur, uz = u[0], (g if not far and inside() else 0) - u[1]
        elif name == 'dline':
            ur, uz = u[0], -u[1]
        elif name == 'longi':
            M.eq('u_psi', v[1], (0 if inside() else g * R / r) - u[1], scale=1e-6)
            return
        elif name == 'root':
            M.eq('u_psi', v[1], g / (2 * M.pi * r) - u[1], scale=1e-6)
            return
        M.eq('ur', v[0], ur, scale=1e-6)
        M.eq('uz', v[1], uz, scale=1e-6)
    return run


def surface(name, n=40):
    """points on the surface of the cylinder, given by their azimuth: the same value all around, never nan.
    The encoding has one azimuth; a run of the real code at a model of it repeats the obligation at n azimuths,
    because only the rounding of the radius tells them apart."""
    def run(M):
        R, z, g, e = M.pos('R', (0.5, 2)), M.var('z', (-2, 2)), M.var('g', (0.5, 2)), M.pos('e', (0.05, 0.2))
        a0 = M.var('a', (-3, 3))
        M.assume(g, '>')
        M.assume(z * z, '>', M.q(1, 10**8) * R * R)
        M.assume((z - e) ** 2, '>', M.q(1, 10**8) * R * R)
        M.assume((z + e) ** 2, '>', M.q(1, 10**8) * R * R)
        VC = M.wiz.VortexCylinder
        f = {'vc': lambda *p: VC.vc_tang_u(*p, gamma_t=g, R=R, polar_out=False),
             'longi': lambda *p: VC.vc_longi_u(*p, gamma_l=g, R=R, polar_out=False),
             'cyl': lambda *p: VC.cylinder_tang_u(*p, gamma_t=g, R=R, z1=-e, z2=e, polar_out=False)}[name]
        u = sc1(f(M.arr([R]), M.arr([0 * R]), M.arr([z])))
        for i in M.repeats(n):
            a = a0 + M.q(37 * i, 100)
            c, s = M.np.cos(a), M.np.sin(a)
            v = sc1(f(M.arr([R * c]), M.arr([R * s]), M.arr([z])))
            for k, x in enumerate((c * u[0] - s * u[1], s * u[0] + c * u[1], u[2])):
                M.defined('velocity %d' % k, v[k])
                M.eq('velocity %d' % k, v[k], x, scale=g, tol=1e-5)
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for e in registry():
        if not e.axi:
            continue
        modes = ['near', 'far'] if 'cut' in e.dimless else [None]
        for m in modes:
            sfx = '_' + m if m else ''
            cs.append(Case('rot_%s%s' % (e.name, sfx), rotation(e, False, m), 'one point, any rotation', cost=e.cost * 2, assume_defined=True))
            if e.polar:
                cs.append(Case('agree_%s%s' % (e.name, sfx), agree(e, m), 'one point', cost=e.cost, assume_defined=True))
                if th or e.name in ('ring', 'longi', 'root_vl'):
                    cs.append(Case('rotpol_%s%s' % (e.name, sfx), rotation(e, True, m), 'one point, any rotation', cost=e.cost * 2, assume_defined=True))
    for n in ('ring', 'ring_eps', 'ring_polar', 'ring_saffman', 'ring_linear', 'ring_sing', 'ring_singb', 'cyl', 'vc', 'vc_raw', 'vcff', 'longi', 'root', 'doublet', 'dline'):
        cs.append(Case('mirror_' + n, mirror(n), 'one point and its mirror image', cost=2, assume_defined=True))
    for n in ('vc', 'longi', 'cyl'):
        cs.append(Case('surface_' + n, surface(n, 1000 if th else 40), 'one point of the surface, any azimuth', cost=1))
    return cs
