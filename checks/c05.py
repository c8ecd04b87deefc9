"""C05: every velocity is a finite real number: every division, root, logarithm and elliptic integral that is evaluated is
within its domain, for every control point including the degenerate positions"""
from symwiz.harness import Case
from .common import call1, unit3, unit_xz, sc1

ANY, AXIS, RIM, PLANE = 'any', 'axis', 'rim', 'plane'


def pt(M, where, R):
    """control point (any one / on the axis / at the radius, any azimuth / in the plane z=0)"""
    x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
    if where == AXIS:
        return 0 * x, 0 * y, z
    if where == RIM:
        c = M.between('cospsi', -1, 1, (-0.8, 0.8))
        return R * c, R * M.root('sinpsi', 1 - c * c), z
    if where == PLANE:
        return x, y, 0 * z
    return x, y, z


def el(fn, where, pol=True, eps=False):
    def run(M):
        g, R = M.var('g', (0.5, 2)), M.pos('R')
        w = M.wiz
        k = {'epsilon': M.pos('eps', (0.05, 0.2))} if eps else {}
        if fn in ('ring_polar', 'ring_linear'):
            r, z = M.var('r', (0.3, 2)), M.var('z', (-2, 2))
            M.assume(r, '>=')
            if fn == 'ring_linear':
                M.assume(k['epsilon'], '<', R)
                k['reg_method'] = 'linear'
            if eps:
                M.assume(k['epsilon'], '<', R)
            if where == AXIS:
                r = 0 * r
            if where == RIM:
                r = R + 0 * r
            o = call1(M, w.VortexRing.ring_u_polar, r, z, Gamma=g, r0=R, z0=M.var('z0', (-1, 1)), **k)
        else:
            x, y, z = pt(M, where, R)
            a = M.arr([x]), M.arr([y]), M.arr([z])
            if fn == 'ring':
                o = w.VortexRing.ring_u(*a, Gamma=g, R=R, polar_out=pol, **k)
            elif fn == 'vc':
                o = w.VortexCylinder.vc_tang_u(*a, gamma_t=g, R=R, polar_out=pol, **k)
            elif fn == 'vcff':
                o = w.VortexCylinder.vc_tang_u_doublet(*a, gamma_t=g, R=R, polar_out=pol, r_bar_Cut=M.pos('cut', (0.8, 3)))
            elif fn == 'cyl':
                z1, L = M.var('z1', (-2, 0)), M.pos('L')
                if where == RIM:
                    M.assume(z, '!=', z1)
                    M.assume(z, '!=', z1 + L)
                else:
                    # off the two rims (within 1e-7 R of which the point counts as on the rim)
                    e = (x * x + y * y - R * R) ** 2
                    M.assume(e + (R * (z - z1)) ** 2, '>', M.q('1e-12') * R ** 4)
                    M.assume(e + (R * (z - z1 - L)) ** 2, '>', M.q('1e-12') * R ** 4)
                o = w.VortexCylinder.cylinder_tang_u(*a, gamma_t=g, R=R, z1=z1, z2=z1 + L, polar_out=pol)
            elif fn == 'longi':
                o = w.VortexCylinder.vc_longi_u(*a, gamma_l=g, R=R, polar_out=pol)
            elif fn == 'ss':
                o = (w.SelfSimilar.ss_u(*a, g, R=R),)
            o = sc1(o)
        for i, c in enumerate(o):
            M.defined('component %d' % i, c)
    return run


def raw(fn):
    def run(M):
        r, z, g, R = M.pos('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('g', (0.5, 2)), M.pos('R')
        if fn == 'vc_raw':
            M.assume(r, '!=', R)
            o = M.wiz.VortexCylinder.cylinder_tang_semi_inf_u_raw(M.arr([r]), M.arr([0 * r]), M.arr([z]), gamma_t=g, R=R)
        else:
            M.assume((r - R) ** 2 + z * z, '>')
            o = getattr(M.wiz.VortexRing, fn)(r, z, g, R)
        for c in sc1(o):
            M.defined('component', c)
    return run


def root(fn, where, skew=False):
    def run(M):
        x, y, z = pt(M, where, 1)
        G = M.var('G', (0.5, 2))
        a = M.arr([x]), M.arr([y]), M.arr([z])
        if skew:
            m = M.var('m', (-1, 1))
            M.assume(m, '!=')
            o = M.wiz.VortexCylinderSkewed.svc_root_u(*a, Gamma_r=G, m=m)
        else:
            f = {'vl': lambda: M.wiz.VortexLine.vl_semiinf_straight_u, 'vc': lambda: M.wiz.VortexCylinder.vc_root_u, 'svc': lambda: M.wiz.VortexCylinderSkewed.svc_root_u}[fn]()
            o = f(*a, Gamma_r=G)
        for i, c in enumerate(sc1(o)):
            M.defined('component %d' % i, c)
    return run


def line(model):
    def run(M):
        x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
        if model == 3:
            ex, ez = unit_xz(M)   # h**4 + t**4 is out of reach of the solver for a general direction
            e = ex, 0 * ex, ez
        else:
            e = unit3(M)
        G, t = M.var('G', (0.5, 2)), M.pos('t', (0.1, 2))
        o = M.wiz.VortexLine.vl_semiinf_u(x, y, z, *e, G, model, t)
        for i in range(3):
            c = o[i]
            M.defined('component %d' % i, c[0] if getattr(c, 'shape', ()) else c)
    return run


def doublet(M):
    d, x0, m = [M.var(c, (0.3, 2)) for c in 'xyz'], [M.var(c + '0', (-0.3, 0.3)) for c in 'xyz'], [M.var('m' + c) for c in 'xyz']
    for c in call1(M, M.wiz.VortexDoublet.doublet_u, *d, m=m, x0=x0):
        M.defined('component', c)
    for c in call1(M, M.wiz.VortexDoublet.doublet_u, *x0, m=m, x0=x0):
        M.eq('at the doublet', c, 0)


def doublet_polar(M):
    r, z, z0, m = M.var('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('z0'), M.var('m')
    M.assume(r, '>=')
    for c in call1(M, M.wiz.VortexDoublet.doublet_u_polar, r, z, m, z0=z0):
        M.defined('component', c)
    for c in call1(M, M.wiz.VortexDoublet.doublet_u_polar, 0 * r, z0, m, z0=z0):
        M.eq('at the doublet', c, 0)


def dline_polar(num):
    def run(M):
        r, z, m = M.var('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('m')
        M.assume(r, '>=')
        V = M.wiz.VortexDoublet
        if num:
            o = call1(M, V.doublet_line_polar_u_num, r, z, m, z0=M.var('z0'), zmax=M.var('z1', (3, 4)), nQuad=2)
        else:
            o = call1(M, V.doublet_line_polar_u, r, z, m)
        for c in o:
            M.defined('component', c)
    return run


def dline(skew, finite, where=None):
    def run(M):
        x, y, z, q = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2)), M.var('q')
        m = M.var('m', (-1, 1)) if skew else 0
        k = {'m': m} if skew else {}
        if skew and finite and not where and not M.thorough:
            M.assume(m, '>')
            M.assume(y, '>=')
        if where:
            x, y = m * z, 0 * y   # on the line or on its extensions
            if where == 'line':
                M.assume(z, '>=')
            else:
                M.assume(z, '<')
        if finite:
            L = k['L'] = M.pos('L')
            a2, b, c2 = x * x + y * y + z * z, m * x + z, 1 + m * m
            if where == 'line':
                if M.split(z, '<=', L):
                    pass
                else:
                    M.assume(z, '>', L)
            else:
                d = b * b - a2 * c2
                if M.split(d, '>', -M.q(1, 10**8)):
                    # core region of the code: away from the ends of the line
                    M.assume((M.np.sqrt(a2) - M.np.sqrt(c2) * L), '!=')
                    M.assume((M.np.sqrt(a2) + M.np.sqrt(c2) * L), '>')
        o = call1(M, M.wiz.VortexDoublet.doublet_line_u, x, y, z, q, **k)
        for i, c in enumerate(o):
            M.defined('component %d' % i, c)
            if where == 'line' and (not finite or M.split(z, '<=', L)):
                M.eq('on the line', c, 0)
    return run


def dline_num(M):
    x, y, z, q, m, L = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2)), M.var('q'), M.var('m', (-1, 1)), M.pos('L')
    for c in call1(M, M.wiz.VortexDoublet.doublet_line_u_num, x, y, z, q, m=m, zmax=L, nQuad=2):
        M.defined('component', c)


def skewed(kind, where, pol, nt=3):
    """any point off the generators through the quadrature nodes"""
    def run(M):
        r, z, g, R, m = M.pos('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('g', (0.5, 2)), M.pos('R'), M.var('m', (-1, 1))
        psi = M.var('psi', (-3, 3))
        if where == AXIS:
            r = 0 * r
        if where == PLANE:
            z = 0 * z
        S = M.wiz.VortexCylinderSkewed
        f = getattr(S, 'svc_%s_u_polar' % kind)
        off = (lambda j: M.pi / 2 + 2 * M.pi * M.q(j, nt - 1)) if kind == 'tang' else (lambda j: 2 * M.pi * M.q(j, nt - 1) + M.pi / nt)
        for j in range(nt):
            t = off(j)
            ct, st, cp, sp = M.np.cos(t), M.np.sin(t), M.np.cos(psi), M.np.sin(psi)
            X, Y = (r * cp / R - ct), (r * sp / R - st)
            Z = z / R
            a2 = X * X + Y * Y + Z * Z
            M.assume(a2, '>')
            c = M.np.sqrt(1 + m * m)
            M.assume(M.np.sqrt(a2) * c - (m * X + Z), '>')
        o = sc1(f(M.arr([r]), M.arr([psi]), M.arr([z]), **{'gamma_' + kind[0]: g}, R=R, m=m, ntheta=nt, polar_out=pol))
        for i, c in enumerate(o):
            M.defined('component %d' % i, c)
    return run


def points(key, dim=2):
    def run(M):
        c, p = [M.var('c%d' % i, (-2, 2)) for i in range(dim)], [M.var('p%d' % i, (-2, 2)) for i in range(dim)]
        f = M.wiz.VortexPoint.vps_u
        kw = dict(SmoothModel=key[0], KernelOrder=key[1], SmoothParam=M.arr([M.pos('s')])) if key else {}
        G = M.var('G')
        u = f(M.arr([c]), M.arr([p]), M.arr([G]), **kw)
        v = f(M.arr([p]), M.arr([p]), M.arr([G]), **kw)
        for i in range(dim):
            M.defined('component %d' % i, u[0, i])
            M.eq('at the vortex', v[0, i], 0)
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for f in ('ring', 'vc', 'vcff', 'cyl', 'longi', 'ss'):
        for wh in (ANY, AXIS, RIM, PLANE):
            for e in ([False, True] if f in ('ring', 'vc') else [False]):
                for p in ([False, True] if th and f != 'ss' else [False]):
                    cs.append(Case('%s_%s%s%s' % (f, wh, '_eps' if e else '', '_pol' if p else ''), el(f, wh, p, e), 'one point: ' + wh, cost=3 if wh == ANY else 1))
    for f, e in (('ring_polar', False), ('ring_polar', True), ('ring_linear', True)):
        for wh in (ANY, AXIS, RIM):
            cs.append(Case('%s_%s%s' % (f, wh, '_eps' if e else ''), el(f, wh, True, e), 'one point: ' + wh, cost=2))
    for f in ('ring_u_polar_singular', 'ring_u_polar_singularb', 'vc_raw'):
        cs.append(Case(f, raw(f), 'one point off the singular set'))
    for f in ('vl', 'vc', 'svc'):
        for wh in (ANY, AXIS, PLANE):
            cs.append(Case('root_%s_%s' % (f, wh), root(f, wh), 'one point: ' + wh))
    for wh in (ANY, AXIS, PLANE):
        cs.append(Case('root_skewed_%s' % wh, root('svc', wh, True), 'one point, any skew: ' + wh, cost=2))
    for v in (0, 1, 2, 3, 5):
        cs.append(Case('line%d' % v, line(v), 'one point, any direction', cost=2))
    cs += [Case('doublet', doublet, 'one point'), Case('doublet_polar', doublet_polar, 'one point'), Case('dline_polar', dline_polar(False), 'one point'),
           Case('dline_polar_num', dline_polar(True), 'one point, 2 doublets'), Case('dline_num', dline_num, 'one point, 2 doublets', cost=2)]
    for s in (False, True):
        for fi in (False, True):
            for wh in (None, 'line', 'before'):
                cs.append(Case('dline_skew%d_fin%d_%s' % (s, fi, wh or ANY), dline(s, fi, wh), 'one point' + (', y>=0, m>0 (quick)' if s and fi and not wh else ''), cost=3, budget=250))
    for k in ('tang', 'longi'):
        for wh in (ANY, AXIS, PLANE):
            for p in (False, True):
                cs.append(Case('skewed_%s_%s%s' % (k, wh, '_pol' if p else ''), skewed(k, wh, p), 'one point off the generators, ntheta=3: ' + wh, cost=3))
    for key in (None, (1, 2), (1, 4), (1, 6), (1, 8), (2, 2), (2, 4), (2, 6), (2, 8), (2, 10)):
        cs.append(Case('points_' + ('%d_%d' % key if key else 'ideal'), points(key), 'one point, one vortex'))
    cs.append(Case('points_3d', points(None, 3), 'one point, one vortex'))
    return cs
