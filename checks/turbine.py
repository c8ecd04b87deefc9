"""turbines in any frame, and the velocity they should have, used by C12-C16 and C24 (not a check)"""
from symwiz import stubs

CONV = {'y': ((0, 1, 0), (0, 0, 1)), 'z': ((0, 0, 1), (1, 0, 0)), 'z-': ((0, 0, 1), (-1, 0, 0)), 'zy': ((0, 0, 1), (0, 1, 0)), 'x': ((1, 0, 0), (0, 1, 0))}


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def vec(M, v):
    return M.arr([x + M.q(0) for x in v])


class T:
    """settings of a turbine (values), and how to make it"""

    def __init__(self, M, conv='y', sfx='', ncyl=1, R=None, hub=None, U0=None, yaw=None, chi=None, load=True, heading=None):
        self.M, self.sfx, self.ncyl = M, sfx, ncyl
        self.vert, self.shaft0 = CONV[conv] if isinstance(conv, str) else conv
        if heading is not None:
            c, s = heading
            x = cross(self.vert, self.shaft0)
            self.shaft0 = tuple(self.shaft0[i] * c + x[i] * s for i in range(3))
        self.R = R if R is not None else M.pos('R' + sfx, (1, 2))
        self.hub = hub if hub is not None else [M.var('h%s%s' % (n, sfx), (0.3, 1)) for n in 'xyz']
        self.U0 = U0 if U0 is not None else [M.var('U%s%s' % (n, sfx), (1, 4)) for n in 'xyz']
        self.yaw, self.chi = yaw, chi
        self.gt = self.gl = self.Gr = self.r = None
        if load:
            self.gt = [M.var('gt%d%s' % (i, sfx), (-2, -0.5)) for i in range(ncyl)]
            self.gl = [M.var('gl%d%s' % (i, sfx), (-2, -0.5)) for i in range(ncyl)]
            self.Gr = M.var('Gr' + sfx, (-2, -0.5))
            self.r = [M.pos('r%d%s' % (i, sfx), (0.5, 1)) for i in range(ncyl)]
            for v in self.gt + self.gl + [self.Gr]:
                M.assume(v, '<')

    def set_loading(self, WT):
        M = self.M
        WT.r = M.arr(self.r)
        WT.gamma_t = M.arr(self.gt)
        WT.gamma_l = None if self.gl is None else M.arr(self.gl)
        WT.Gamma_r = self.Gr

    def make(self, load=True, **k):
        M = self.M
        WT = M.wiz.WindTurbine.WindTurbine(R=self.R, r_hub=vec(M, self.hub), e_shaft_yaw0=vec(M, self.shaft0), e_vert=vec(M, self.vert), U0=vec(M, self.U0), **k)
        if self.yaw is not None:
            WT.update_yaw_pos(self.yaw)
        if self.chi is not None:
            WT.set_chi(self.chi)
        if load and self.gt is not None:
            self.set_loading(WT)
        return WT

    # ---- expectations
    def axes(self):
        """lateral, vertical and shaft unit vectors after yawing"""
        if self.yaw is None:
            sh = self.shaft0
        else:
            c, s = self.M.np.cos(self.yaw), self.M.np.sin(self.yaw)
            x = cross(self.vert, self.shaft0)
            sh = tuple(self.shaft0[i] * c + x[i] * s for i in range(3))
        return cross(self.vert, sh), self.vert, sh

    def rotor(self, p, hub=None):
        """point in the frame of the rotor"""
        d = [p[i] - (hub or self.hub)[i] for i in range(3)]
        return [dot(d, e) for e in self.axes()]

    def back(self, u):
        A = self.axes()
        return [sum((A[k][i] * u[k] for k in (1, 2)), A[0][i] * u[0]) for i in range(3)]

    def mirrored(self):
        h = dot(self.hub, self.vert)
        return [self.hub[i] - 2 * h * self.vert[i] for i in range(3)]


def points(M, n=1, sfx=''):
    return [[M.var('%s%d%s' % (c, i, sfx), (-3, 3)) for c in 'xyz'] for i in range(n)]


def cols(M, pts):
    return [M.arr([p[i] for p in pts]) for i in range(3)]


def els():
    return stubs.elements()


def skew(M, t, kind):
    """prescribe the skew angle; returns tan or None"""
    if kind == 'straight':
        t.chi = 0 * M.q(1)
        return None
    t.chi = M.var('chi', (0.2, 0.8))
    M.assume(t.chi, '>', M.q(1, 100)) if kind == 'skew' else M.assume(t.chi, '<', M.q(-1, 100))
    M.assume(t.chi, '<', 1)
    M.assume(t.chi, '>', -1)
    return M.np.tan(t.chi)


def contribution(M, t, what, q, m, i=0, model='VC', far=6, R=None):
    """velocity of one element at one point of the rotor frame"""
    V, S, D = M.wiz.VortexCylinder, M.wiz.VortexCylinderSkewed, M.wiz.VortexDoublet
    q = [M.arr([c]) for c in q]
    R = R if R is not None else t.r[i] if t.ncyl > 1 else t.R
    if what == 'root':
        u = V.vc_root_u(*q, Gamma_r=t.Gr, polar_out=False) if m is None else S.svc_root_u(*q, Gamma_r=t.Gr, m=m, polar_out=False)
    elif what == 'longi':
        u = V.vc_longi_u(*q, gamma_l=t.gl[i], R=R, polar_out=False) if m is None else S.svc_longi_u(*q, gamma_l=t.gl[i], R=R, m=m, polar_out=False)
    elif model == 'VC':
        u = V.vc_tang_u(*q, gamma_t=t.gt[i], R=R, polar_out=False) if m is None else S.svc_tang_u(*q, gamma_t=t.gt[i], R=R, m=m, polar_out=False)
    elif model == 'VCFF':
        u = V.vc_tang_u_doublet(*q, gamma_t=t.gt[i], R=R, polar_out=False, r_bar_Cut=far)
    elif model == 'VD':
        u = D.doublet_line_u(*q, dmz_dz=t.gt[i] * M.pi * R * R)
    elif model == 'SS':
        w = M.wiz.SelfSimilar.ss_u(*q, gamma_t=t.gt[i], R=R)
        u = (0 * w, 0 * w, w)
    return [c.reshape(-1)[0] for c in u]


def expected(M, t, p, m=None, tang=True, longi=False, root=False, model='VC', far=6, hubs=None):
    """sum of the requested contributions at one point, in global coordinates"""
    tot = None
    for hub in hubs or [t.hub]:
        q = t.rotor(p, hub)
        for what, on in (('tang', tang), ('longi', longi), ('root', root)):
            for i in range(1 if what == 'root' else t.ncyl):
                if on:
                    e = contribution(M, t, what, q, m, i, model, far)
                    tot = e if tot is None else [a + b for a, b in zip(tot, e)]
    return [M.q(0)] * 3 if tot is None else t.back(tot)
