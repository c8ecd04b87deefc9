"""vortex elements of the library with one calling convention, used by several checks"""


def mods(M):
    w = M.wiz
    return w.VortexRing, w.VortexCylinder, w.VortexLine, w.VortexDoublet, w.VortexCylinderSkewed, w.VortexPoint


def sc1(o):
    """outputs of an array call on one control point -> scalars"""
    out = []
    for c in o:
        out.append(c[0] if getattr(c, 'shape', ()) != () else c)
    return tuple(out)


def call1(M, f, *xs, **k):
    """f on single-point arrays"""
    return sc1(f(*[M.arr([x]) for x in xs], **k))


def unit_xz(M, name='sx'):
    """any unit vector of the x-z plane -> (ex, ez)"""
    ex = M.between(name, -1, 1, (-0.8, 0.8))
    return ex, M.root(name + '_z', 1 - ex * ex)


def unit3(M, n1='ex', n2='ey'):
    """any unit vector"""
    ex, ey = M.between(n1, -1, 1, (-0.6, 0.6)), M.between(n2, -1, 1, (-0.6, 0.6))
    M.assume(ex * ex + ey * ey, '<=', 1)
    return ex, ey, M.root(n1 + n2 + '_z', 1 - ex * ex - ey * ey)


def scale_of(M, *xs):
    if M.sym:
        return None
    import numpy as np
    return [float(np.max(np.abs(np.asarray(x, dtype=float)))) for x in xs]


# ------------------------------------------------------------------ registry of induced-velocity functions
class P:
    """parameters of an element (attributes)"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def copy(self, **k):
        d = dict(self.__dict__)
        d.update(k)
        return P(**d)


class El:
    """one induced-velocity function: f(M, X, Y, Z, g, p, polar) -> components
    lengths: parameters that scale with length, dimless: others, dim: u ~ strength / length**dim"""

    def __init__(self, name, f, lengths=(), dimless=(), dim=0, polar=None, sing=None, axi=True, cost=1, assume_defined=False, pmargin=None, **opts):
        self.name, self.f, self.lengths, self.dimless, self.dim = name, f, lengths, dimless, dim
        self.polar, self.sing, self.axi, self.cost, self.assume_defined, self.opts = polar, sing, axi, cost, assume_defined, opts

    def params(self, M, sfx=''):
        d = {}
        for n in self.lengths:
            if n == 'z1':
                d['z1'] = M.var('z1' + sfx, (-2, 0))
            elif n == 'z2':
                d['z2'] = d['z1'] + M.pos('len' + sfx, (0.5, 3))
            elif n == 'z0':
                d['z0'] = M.var('z0' + sfx, (-1, 1))
            elif n == 'eps':
                d['eps'] = M.pos('eps' + sfx, (0.05, 0.2))
            elif n == 'x0':
                d['x0'] = [M.var(c + '0' + sfx, (-0.3, 0.3)) for c in 'xyz']
            else:
                d[n] = M.pos(n + sfx, (0.6, 1.6))
        for n in self.dimless:
            d[n] = M.var(n + sfx, (-1, 1))
        return P(**d)

    def u(self, M, X, Y, Z, g, p, polar=False):
        return self.f(M, X, Y, Z, g, p, polar)

    def guard(self, M, x, y, z, p):
        if self.sing:
            self.sing(M, x, y, z, p)


def no_rim(M, x, y, z, p):
    """off the ring / off the edge and surface of the semi-infinite cylinder"""
    r2 = x * x + y * y
    R2 = p.R * p.R
    M.assume((r2 - R2) * (r2 - R2), '>=', R2 * R2 / M.q(10**8))


def no_rim_axis(M, x, y, z, p):
    no_rim(M, x, y, z, p)
    M.assume(x * x + y * y, '>=', p.R * p.R / M.q(10**10))


def no_axis(M, x, y, z, p):
    M.assume(x * x + y * y, '>', M.q(1, 10**4))


def no_point(M, x, y, z, p):
    x0 = getattr(p, 'x0', [0, 0, 0])
    M.assume(((x - x0[0]) ** 2 + (y - x0[1]) ** 2 + (z - x0[2]) ** 2) ** M.q(3, 2), '>=', M.q(1, 1000))


def no_dline(M, x, y, z, p):
    m = getattr(p, 'm', 0)
    M.assume(y * y + (x - m * z) * (x - m * z), '>', M.q(1, 10**4))
    if hasattr(p, 'L'):
        c2 = 1 + m * m
        a2, b = x * x + y * y + z * z, m * x + z
        M.assume(a2 * c2 - b * b, '>', M.q(1, 10**4))


def no_nodes(M, x, y, z, p):
    """away from the doublets of a discretised line"""
    for k in (0, 1, 2):
        z0 = p.L * M.q(k, 2)
        M.assume(((x - p.m * z0) ** 2 + y * y + (z - z0) ** 2) ** M.q(3, 2), '>=', M.q(1, 1000))


def no_skew_line(M, x, y, z, p):
    """off the semi-infinite line x = m z"""
    n = M.np.sqrt(x * x + y * y + z * z)
    c = M.np.sqrt(1 + p.m * p.m)
    M.assume(x * x + y * y, '>', M.q(1, 10**4))
    M.assume(n * (n - (x * p.m / c + z / c)), '>', M.q(1, 10**6))


def no_dline_pol(M, x, y, z, p):
    M.assume(x * x + y * y, '>', M.q(1, 10**8))
    M.assume(z * z, '>', M.q(1, 10**8))


def _pc(o, polar, M, Y, X):
    """(ur,uz) -> Cartesian components"""
    ur, uz = o
    if polar:
        return ur, uz
    psi = M.np.arctan2(Y, X)
    return ur * M.np.cos(psi), ur * M.np.sin(psi), uz


NT = 3


def registry():
    W = lambda mod, fn: (lambda M: getattr(getattr(M.wiz, mod), fn))
    VR, VC, VL, VD, SV = 'VortexRing', 'VortexCylinder', 'VortexLine', 'VortexDoublet', 'VortexCylinderSkewed'
    els = [
        El('ring', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexRing.ring_u(X, Y, Z, Gamma=g, R=p.R, polar_out=pol),
           ['R'], dim=1, polar='rz', sing=no_rim),
        El('ring_eps', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexRing.ring_u(X, Y, Z, Gamma=g, R=p.R, polar_out=pol, epsilon=p.eps),
           ['R', 'eps'], dim=1, polar='rz', sing=no_rim),
        El('vc', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexCylinder.vc_tang_u(X, Y, Z, gamma_t=g, R=p.R, polar_out=pol),
           ['R'], dim=0, polar='rz', sing=no_rim),
        El('vc_eps', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexCylinder.vc_tang_u(X, Y, Z, gamma_t=g, R=p.R, polar_out=pol, epsilon=p.eps),
           ['R', 'eps'], dim=0, polar='rz', sing=no_rim),
        El('vcff', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexCylinder.vc_tang_u_doublet(X, Y, Z, gamma_t=g, R=p.R, polar_out=pol, r_bar_Cut=p.cut),
           ['R'], ['cut'], dim=0, polar='rz', sing=no_rim, cost=3),
        El('cyl_finite', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexCylinder.cylinder_tang_u(X, Y, Z, gamma_t=g, R=p.R, z1=p.z1, z2=p.z2, polar_out=pol),
           ['R', 'z1', 'z2'], dim=0, polar='rz', sing=no_rim, cost=2),
        El('longi', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexCylinder.vc_longi_u(X, Y, Z, gamma_l=g, R=p.R, polar_out=pol),
           ['R'], dim=0, polar='rpz', sing=no_rim),
        El('root_vl', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexLine.vl_semiinf_straight_u(X, Y, Z, Gamma_r=g, polar_out=pol), dim=1, polar='rpz', sing=no_axis),
        El('root_vc', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexCylinder.vc_root_u(X, Y, Z, Gamma_r=g, polar_out=pol), dim=1, polar='rpz', sing=no_axis),
        El('doublet', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexDoublet.doublet_u(X, Y, Z, [g * p.mx, g * p.my, g * p.mz], x0=p.x0),
           ['x0'], ['mx', 'my', 'mz'], dim=3, sing=no_point, axi=False),
        El('dline', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexDoublet.doublet_line_u(X, Y, Z, g), dim=2, sing=no_dline),
        El('dline_skew', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexDoublet.doublet_line_u(X, Y, Z, g, m=p.m), [], ['m'], dim=2, sing=no_dline, axi=False),
        El('dline_fin', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexDoublet.doublet_line_u(X, Y, Z, g, m=p.m, L=p.L), ['L'], ['m'], dim=2, sing=no_dline, axi=False, cost=3),
        El('dline_num', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexDoublet.doublet_line_u_num(X, Y, Z, g, m=p.m, zmax=p.L, nQuad=3), ['L'], ['m'], dim=2,
           sing=no_nodes, axi=False, cost=2),
        El('sv_tang', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexCylinderSkewed.svc_tang_u(X, Y, Z, gamma_t=g, R=p.R, m=p.m, ntheta=NT, polar_out=pol),
           ['R'], ['m'], dim=0, polar='rpz', sing=no_axis, axi=False, cost=3, assume_defined=True),
        El('sv_longi', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexCylinderSkewed.svc_longi_u(X, Y, Z, gamma_l=g, R=p.R, m=p.m, ntheta=NT, polar_out=pol),
           ['R'], ['m'], dim=0, polar='rpz', sing=no_axis, axi=False, cost=3, assume_defined=True),
        El('sv_root', lambda M, X, Y, Z, g, p, pol: M.wiz.VortexCylinderSkewed.svc_root_u(X, Y, Z, Gamma_r=g, m=p.m, polar_out=pol),
           [], ['m'], dim=1, polar='rpz', sing=no_skew_line, axi=False, cost=2, assume_defined=True),
        El('ss', lambda M, X, Y, Z, g, p, pol: (M.wiz.SelfSimilar.ss_u(X, Y, Z, g, R=p.R),), ['R'], dim=0),
    ]
    return els


def cyl_polar_registry():
    """functions with polar input (r, z)"""
    els = [
        El('ring_polar', lambda M, r, Y, z, g, p, pol: M.wiz.VortexRing.ring_u_polar(r, z, Gamma=g, r0=p.R, z0=p.z0), ['R', 'z0'], dim=1, sing=no_rim),
        El('ring_saffman', lambda M, r, Y, z, g, p, pol: M.wiz.VortexRing.ring_u_polar(r, z, Gamma=g, r0=p.R, z0=p.z0, epsilon=p.eps), ['R', 'z0', 'eps'], dim=1, sing=no_rim),
        El('ring_sing', lambda M, r, Y, z, g, p, pol: M.wiz.VortexRing.ring_u_polar_singular(r, z, Gamma=g, r0=p.R), ['R'], dim=1, sing=no_rim_axis),
        El('ring_singb', lambda M, r, Y, z, g, p, pol: M.wiz.VortexRing.ring_u_polar_singularb(r, z, Gamma=g, r0=p.R), ['R'], dim=1, sing=no_rim_axis),
        El('vc_raw', lambda M, r, Y, z, g, p, pol: M.wiz.VortexCylinder.cylinder_tang_semi_inf_u_raw(r, Y, z, gamma_t=g, R=p.R), ['R'], dim=0, sing=no_rim_axis),
        El('doublet_polar', lambda M, r, Y, z, g, p, pol: M.wiz.VortexDoublet.doublet_u_polar(r, z, g, z0=p.z0), ['z0'], dim=3,
           sing=lambda M, r, y, z, p: M.assume(r * r + (z - p.z0) * (z - p.z0), '>', M.q(1, 100))),
        El('dline_polar', lambda M, r, Y, z, g, p, pol: M.wiz.VortexDoublet.doublet_line_polar_u(r, z, g), [], dim=2, sing=no_dline_pol),
        El('dline_polar_num', lambda M, r, Y, z, g, p, pol: M.wiz.VortexDoublet.doublet_line_polar_u_num(r, z, g, z0=p.z0, zmax=p.z0 + p.L, nQuad=3), ['z0', 'L'], dim=2,
           sing=lambda M, r, y, z, p: M.assume(r, '>', M.q(1, 10)))
    ]
    return els
