"""C12: skew angle of the wake"""
import itertools
from symwiz.harness import Case
from symwiz import stubs
from .turbine import T, CONV, dot, cross, points, cols, els, vec


def wind(M, t, sfx=''):
    """any wind: horizontal part from its speed and any direction, and a vertical part"""
    return [M.var('U%s%s' % (n, sfx), (1, 4)) for n in 'xyz']


def angle(conv, yawed=True):
    """tan, cos and sin of the angle between wind and shaft"""
    def run(M):
        yaw = M.var('yaw', (-1, 1)) if yawed else None
        t = T(M, conv, yaw=yaw)
        lat, vert, sh = t.axes()
        U = t.U0
        Uh = [U[i] - dot(U, vert) * vert[i] for i in range(3)]
        M.assume(dot(Uh, Uh), '>')
        WT = t.make()
        p = points(M)
        WT.compute_u(*cols(M, p))
        n = M.np.sqrt(dot(Uh, Uh))
        M.eq('cosine', M.np.cos(WT.chi) * n, dot(Uh, sh))
        M.eq('sine', M.np.sin(WT.chi) * n, dot(cross(sh, Uh), vert))
    return run


def used(conv, what):
    """the skew the elements are evaluated with, in the frame of the current shaft"""
    def run(M):
        yaw = M.var('yaw', (-0.6, 0.6))
        ncyl = 2 if 'multi' in what else 1
        t = T(M, conv, yaw=yaw, ncyl=ncyl)
        lat, vert, sh = t.axes()
        U = t.U0
        M.assume(dot(U, sh), '>')
        m = dot(cross(sh, U), vert) / dot(U, sh)
        WT = t.make()
        p = points(M)
        k = dict(tang='longi' not in what and 'root' not in what, longi='longi' in what, root='root' in what)
        u = WT.compute_u(*cols(M, p), only_ind=True, **k)
        q = [M.arr([c]) for c in t.rotor(p[0])]
        if not M.split(M.np.abs(WT.chi), '>', M.q(1, 10**7)):
            m = None
        V, S = M.wiz.VortexCylinder, M.wiz.VortexCylinderSkewed
        tot = None
        for i in range(ncyl):
            R = t.r[i] if ncyl > 1 else t.R
            if k['root']:
                e = S.svc_root_u(*q, Gamma_r=t.Gr, m=m, polar_out=False) if m is not None else V.vc_root_u(*q, Gamma_r=t.Gr, polar_out=False)
            elif k['longi']:
                e = S.svc_longi_u(*q, gamma_l=t.gl[i], R=R, m=m, polar_out=False) if m is not None else V.vc_longi_u(*q, gamma_l=t.gl[i], R=R, polar_out=False)
            else:
                e = S.svc_tang_u(*q, gamma_t=t.gt[i], R=R, m=m, polar_out=False) if m is not None else V.vc_tang_u(*q, gamma_t=t.gt[i], R=R, polar_out=False)
            e = [c.reshape(-1)[0] for c in e]
            tot = e if tot is None else [a + b for a, b in zip(tot, e)]
        v = t.back(tot)
        for i in range(3):
            M.eq('velocity %d' % i, u[i][0], v[i], scale=1e-9)
    return run


def reported(conv, horizontal, yawed=True):
    """the wind angle and the yaw error a turbine reports"""
    def run(M):
        t = T(M, conv, yaw=M.var('yaw', (-1, 1)) if yawed else None)
        lat, vert, sh = t.axes()
        if horizontal:
            a, b = M.var('Ua', (1, 4)), M.var('Ub', (1, 4))
            x = cross(vert, t.shaft0)
            t.U0 = [a * t.shaft0[i] + b * x[i] for i in range(3)]
        U = t.U0
        Uh = [U[i] - dot(U, vert) * vert[i] for i in range(3)]
        M.assume(dot(Uh, Uh), '>')
        WT = t.make(load=False)
        n = M.np.sqrt(dot(Uh, Uh))
        w, e = WT.yaw_wind, WT.yaw_error
        M.eq('cosine of the wind angle', M.np.cos(w) * n, dot(Uh, t.shaft0))
        M.eq('sine of the wind angle', M.np.sin(w) * n, dot(cross(t.shaft0, Uh), vert))
        if horizontal:
            M.eq('cosine of the yaw error', M.np.cos(e) * n, dot(Uh, sh))
            M.eq('sine of the yaw error', M.np.sin(e) * n, dot(cross(Uh, sh), vert))
    return run


def aligned(conv, opposite=False, n=24):
    """winds along the shaft of a turbine with any heading: no skew and no yaw error, and never nan.
    The encoding has one wind (any heading, any speed); a run of the real code at a model of it repeats
    the same obligation at n headings, because only rounding tells them apart."""
    def run(M):
        sgn = -1 if opposite else 1
        a0, V = M.var('yaw', (-3, 3)), M.pos('V', (1, 20))
        for i in M.repeats(n):
            a = a0 + M.q(37 * i, 100)
            t = T(M, conv, yaw=a, hub=[M.q(0)] * 3, R=M.q(1), U0=[M.q(0)] * 3)
            t.U0 = [sgn * V * c for c in t.axes()[2]]
            WT = t.make()
            WT.compute_u(*cols(M, [[M.q(1, 2), M.q(1, 3), M.q(1, 4)]]))
            for lb, v in (('skew', WT.chi), ('yaw error', WT.yaw_error)):
                M.defined(lb, v)
                M.eq('cosine of the ' + lb, M.np.cos(v), sgn, scale=1)
                M.eq('sine of the ' + lb, M.np.sin(v), 0, scale=1, tol=1e-6)
            M.eq('cosine of the wind angle', M.np.cos(WT.yaw_wind), sgn * M.np.cos(a), scale=1, tol=1e-6)
            M.eq('sine of the wind angle', M.np.sin(WT.yaw_wind), sgn * M.np.sin(a), scale=1, tol=1e-6)
    return run


# ------------------------------------------------------------------ histories
# flags of an evaluation; the fields asked for must not matter for what comes later
EVAL = {'E': dict(), 'B': dict(no_wake=True), 'G': dict(ground=True, longi=True), 'I': dict(only_ind=True, longi=True, tang=False, root=False),
        'X': dict(Model='unknown')}


class Hist:
    """applies operations to a turbine, and remembers the settings.
    W wind, Y yaw position, P hub position, L loading (one cylinder from a mean Ct), l loading at given radii, M loading of two cylinders,
    C skew prescribed, N skew not prescribed any more, E B G I X evaluations (X is refused), Q angles, disk points and text asked for,
    Z zero-yaw shaft and vertical set again, F position and evaluation through a farm"""

    def __init__(self, M, conv, chi=None):
        self.M, self.n = M, 0
        self.t = T(M, conv)
        self.WT = self.t.make()
        self.pts = points(M)
        self.g = self.t.gt[0]
        self.kw = dict(longi=False, root=True)
        self.load = self.t.set_loading

    def vals(self, name, n, nice):
        self.n += 1
        return [self.M.var('%s%d_%d' % (name, self.n, i), nice) for i in range(n)]

    def op(self, o):
        M, t, WT = self.M, self.t, self.WT
        if o == 'W':
            t.U0 = self.vals('w', 3, (1, 4))
            WT.update_wind(M.arr(t.U0))
        elif o == 'Y':
            t.yaw = self.vals('y', 1, (-0.6, 0.6))[0]
            WT.update_yaw_pos(t.yaw)
        elif o == 'P':
            t.hub = self.vals('p', 3, (0.3, 1))
            WT.update_position(M.arr(t.hub))
        elif o in 'LlM':
            c0, c1, g = self.vals('c', 3, (0.2, 0.8))
            M.assume(g, '<')
            M.assume(c0, '>')
            M.assume(c1, '>')
            r = [t.R / 2, t.R]

            def load(W):
                if o == 'L':
                    W.update_loading(Ct=c0, Lambda=M.q(7), gamma_t_Ct=lambda c: g * c)
                else:
                    W.update_loading(r=M.arr(r), Ct=M.arr([c0, c1]), Lambda=M.q(7), gamma_t_Ct=lambda c: g * c, nCyl=None if o == 'l' else 2)
            self.load = load
            load(WT)
        elif o == 'C':
            t.chi = self.vals('chi', 1, (0.2, 0.8))[0]
            WT.set_chi(t.chi)
        elif o == 'N':
            t.chi = None
            WT.set_chi(None)
        elif o == 'Z':
            t.yaw = None
            c = M.between('zc%d' % self.n, -1, 1, (-0.9, 0.9))
            sn = M.root('zs%d' % self.n, 1 - c * c)
            x = cross(t.vert, t.shaft0)
            t.shaft0 = tuple(t.shaft0[i] * c + x[i] * sn for i in range(3))
            WT.set_yaw0_coord(vec(M, t.shaft0), vec(M, t.vert))
        elif o == 'Q':
            WT.yaw_wind, WT.yaw_error
            WT.rotor_disk_points(3)
        elif o == 'F':
            t.hub = self.vals('p', 3, (0.3, 1))
            farm = M.wiz.WindFarm.WindFarm([WT])
            farm.layout = M.arr(t.hub, (1, 3))
            farm.velocity_field(*cols(M, self.pts), **self.kw)
        elif o in EVAL:
            try:
                WT.compute_u(*cols(M, self.pts), **{**self.kw, **EVAL[o]})
            except NotImplementedError:
                M.true('only what is not implemented is refused', o == 'X')
        else:
            raise ValueError(o)


def history(seq, conv, early=True):
    def run(M):
        h = Hist(M, conv)
        for o in seq:
            h.op(o)
        u = h.WT.compute_u(*cols(M, h.pts), **h.kw)
        F = h.t.make(load=False)
        h.load(F)
        v = F.compute_u(*cols(M, h.pts), **h.kw)
        for i in range(3):
            M.eq('velocity %d' % i, u[i][0], v[i][0], scale=1e-9)
        M.eq('skew', h.WT.chi, F.chi, scale=1)
        if h.t.chi is not None:
            M.eq('prescribed skew', h.WT.chi, h.t.chi, scale=1)
        M.eq('shaft', h.WT.e_shaft_g.reshape(3), M.arr(list(h.t.axes()[2])), scale=1)
    return run


def seqs(th):
    out = []
    for s in itertools.permutations('WYPL'):
        out.append('E'.join(s) if th else ''.join(s))
    # an evaluation in between, one update before or after
    for a in 'WYPLCN':
        out += ['E' + a, 'CE' + a, 'C' + a + 'E', 'CEN' + a] if a not in 'CN' else ['E' + a]
        for b in 'WYPLCN':
            out += [a + 'E' + b] if a == b or th else ['E' + a + b]
    # any kind of evaluation, or anything asked for, before an update
    for e in 'BGIXQF':
        out += [e + a for a in 'WY'] + ['C' + e, 'C' + e + 'N' + 'Y']
    # loading of several cylinders, or at given radii, before and after
    for a in 'lM':
        out += ['E' + a + 'Y', 'E' + a + 'W', 'CE' + a, 'E' + a + 'L', 'L' + 'E' + a]
    out += ['ZE', 'EZ', 'YEZ', 'EZY', 'CEZ', 'ElM', 'EMl', 'FEW']
    if th:
        out += [a + b + 'E' + c for a in 'WYPLCN' for b in 'WYPLCN' for c in 'WYPLCN' if len({a, b, c}) > 1]
        out += [a + 'E' + b + 'E' + c for a in 'WYCN' for b in 'WYCN' for c in 'WYCN']
        out += [e + a + b for e in 'BGIXQF' for a in 'WYPLCNlMZF' for b in 'WYCN' if a != b]
    return list(dict.fromkeys(out))


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for c in CONV:
        cs.append(Case('angle_' + c, angle(c), 'one wind, one yaw', overrides=els, assume_defined=True))
        cs.append(Case('angle0_' + c, angle(c, False), 'one wind, no yaw', overrides=els, assume_defined=True))
    for c in CONV:
        cs.append(Case('reported_' + c, reported(c, False), 'one wind, one yaw', overrides=els, assume_defined=True))
        cs.append(Case('reported_horizontal_' + c, reported(c, True), 'one horizontal wind, one yaw', overrides=els, assume_defined=True))
        cs.append(Case('reported_unyawed_' + c, reported(c, True, False), 'one horizontal wind', overrides=els, assume_defined=True))
        for o in (False, True):
            cs.append(Case(('opposite_' if o else 'aligned_') + c, aligned(c, o, 500 if th else 50), 'wind %s the shaft, any heading' % ('against' if o else 'along'),
                           overrides=els, cost=2))
    for c in ('y', 'z') if not th else CONV:
        for w in ('tang', 'longi', 'root', 'tang_multi', 'longi_multi'):
            cs.append(Case('used_%s_%s' % (w, c), used(c, w), 'one wind, one yaw, one point', overrides=els, assume_defined=True, cost=2))
    for i, s in enumerate(seqs(th)):
        c = ('y', 'z')[i % 2]
        cs.append(Case('history_%s_%s' % (s, c), history(s, c), 'updates %s with any values, one point' % s, overrides=els, assume_defined=True, max_witness=3))
    return cs
