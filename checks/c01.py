"""C01: linearity in the strength, superposition of collections"""
from symwiz.harness import Case
from .common import *


def lin(el, polar_in=False, polar=False):
    def run(M):
        x, z = M.var('x', (0.3, 2)), M.var('z', (-2, 2))
        if polar_in:
            M.assume(x, '>=', 0)
            y = 0 * x
        else:
            y = M.var('y', (0.3, 2))
        p = el.params(M)
        if 'cut' in el.dimless:
            M.assume(p.cut, '>', 0)
        el.guard(M, x, y, z, p)
        a, b = M.var('a', (0.5, 2)), M.var('b', (-2, -0.5))
        g1, g2 = M.var('g1', (0.5, 2)), M.var('g2', (0.5, 2))
        for q in (g1, g2, a * g1 + b * g2):
            M.assume(q, '!=')
        A = lambda v: M.arr([v])
        f = lambda g: el.u(M, A(x), A(y), A(z), g, p, polar)
        u1, u2, u3, u0 = f(g1), f(g2), f(a * g1 + b * g2), f(0 * g1)
        for i, (c1, c2, c3, c0) in enumerate(zip(u1, u2, u3, u0)):
            M.eq('component %d' % i, c3, a * c1 + b * c2, scale=scale_of(M, a * c1, b * c2, c1 * 0 + 1e-6) if not M.sym else None)
            M.eq('zero strength %d' % i, c0, 0 * c1)
    return run


def pts(M, n, pre=''):
    return [M.var('%sx%d' % (pre, i), (0.3, 2)) for i in range(n)], [M.var('%sy%d' % (pre, i), (0.3, 2)) for i in range(n)], \
        [M.var('%sz%d' % (pre, i), (-2, 2)) for i in range(n)]


def rings(polar, eps, order, n=2):
    """collection of rings; the velocity of one ring is an arbitrary (uninterpreted) function"""
    def run(M):
        (x,), (y,), (z,) = pts(M, 1)
        cx, cy, cz = pts(M, n, 'c')
        if polar:       # the radial component only has a meaning for coaxial rings
            cx, cy = [M.q(0)] * n, [M.q(0)] * n
        G = [M.var('G%d' % i, (0.5, 2)) for i in range(n)]
        R = [M.pos('R%d' % i) for i in range(n)]
        k = {'epsilon': M.pos('eps', (0.05, 0.2))} if eps else {}
        VR = M.wiz.VortexRing
        A = lambda v: M.arr(v)
        ids = list(range(n))[::-1] if order else list(range(n))
        sel = lambda v: A([v[i] for i in ids])
        u = VR.rings_u(A([x]), A([y]), A([z]), sel(G), sel(R), sel(cx), sel(cy), sel(cz), polar_out=polar, **k)
        refs = [VR.ring_u(A([x - cx[i]]), A([y - cy[i]]), A([z - cz[i]]), G[i], R[i], polar_out=polar, **k) for i in range(n)]
        # a ring without circulation induces nothing
        refs = [q for i, q in enumerate(refs) if not M.split(G[i], '==', 0)]
        for c in range(len(u)):
            M.eq('sum of rings %d' % c, u[c], sum([q[c] for q in refs], 0 * A([x])), scale=scale_of(M, *[q[c] for q in refs]))
    return run


def stub_ov(names):
    """the elements inside of a collection are arbitrary functions of their arguments"""
    from symwiz import stubs
    return lambda: stubs.elements(names)


def coll(which, nc, nr, extra=None, order=False):
    """collections of cylinders; the member function is an arbitrary (uninterpreted) one"""
    def run(M):
        (x,), (y,), (z,) = pts(M, 1)
        cx, cy, cz = pts(M, nc, 'c')
        g = [[M.var('g%d%d' % (i, j), (0.5, 2)) for j in range(nr)] for i in range(nc)]
        R = [[M.pos('R%d%d' % (i, j)) for j in range(nr)] for i in range(nc)]
        m = [[M.var('m%d%d' % (i, j), (-1, 1)) for j in range(nr)] for i in range(nc)]
        A = lambda v: M.arr(v)
        VC, SV = M.wiz.VortexCylinder, M.wiz.VortexCylinderSkewed
        ids = list(range(nc))[::-1] if order else list(range(nc))
        S1 = lambda v: A([v[i] for i in ids])
        X, Y, Z = A([x]), A([y]), A([z])
        eps = M.pos('eps', (0.05, 0.2))
        if which == 'vcs_tang':
            u = VC.vcs_tang_u(X, Y, Z, S1(g), S1(R), S1(cx), S1(cy), S1(cz), epsilon=eps)
            one = lambda i, j: VC.vc_tang_u(X - cx[i], Y - cy[i], Z - cz[i], g[i][j], R[i][j], polar_out=False, epsilon=eps)
        elif which == 'vcs_longi':
            u = VC.vcs_longi_u(X, Y, Z, S1(g), S1(R), S1(cx), S1(cy), S1(cz))
            one = lambda i, j: VC.vc_longi_u(X - cx[i], Y - cy[i], Z - cz[i], g[i][j], R[i][j], polar_out=False)
        elif which == 'svcs_tang':
            u = SV.svcs_tang_u(X, Y, Z, S1(g), S1(R), S1(m), S1(cx), S1(cy), S1(cz), ntheta=5)
            one = lambda i, j: SV.svc_tang_u(X - cx[i], Y - cy[i], Z - cz[i], g[i][j], R[i][j], m[i][j], ntheta=5, polar_out=False)
        else:
            u = SV.svcs_longi_u(X, Y, Z, S1(g), S1(R), S1(m), S1(cx), S1(cy), S1(cz), ntheta=5)
            one = lambda i, j: SV.svc_longi_u(X - cx[i], Y - cy[i], Z - cz[i], g[i][j], R[i][j], m[i][j], ntheta=5, polar_out=False)
        tot = [0, 0, 0]
        for i in range(nc):
            for j in range(nr):
                o = one(i, j)
                # an element without vorticity induces nothing
                if not M.split(g[i][j], '==', 0):
                    tot = [t + c for t, c in zip(tot, o)]
        for c in range(3):
            M.eq('sum of cylinders %d' % c, u[c], tot[c] + 0 * X, scale=scale_of(M, *[t + 0 * X for t in tot]))
    return run


def vps(model, order, nv, ncp=2):
    def run(M):
        x, y = [M.var('x%d' % i) for i in range(ncp)], [M.var('y%d' % i) for i in range(ncp)]
        px, py = [M.var('px%d' % i) for i in range(nv)], [M.var('py%d' % i) for i in range(nv)]
        G = [M.var('G%d' % i, (0.5, 2)) for i in range(nv)]
        s = [M.pos('s%d' % i) for i in range(nv)]
        VP = M.wiz.VortexPoint
        A = M.arr
        k = dict(SmoothModel=model, KernelOrder=order)
        U = VP.vps_u(A([[a, b] for a, b in zip(x, y)]), A([[a, b] for a, b in zip(px, py)]), A(G), SmoothParam=A(s), **k)
        for i in range(ncp):
            tot = 0
            for j in list(range(nv))[::-1]:
                tot = tot + VP.vps_u(A([[x[i], y[i]]]), A([[px[j], py[j]]]), A([G[j]]), SmoothParam=A([s[j]]), **k)[0]
            M.eq('sum of vortices at point %d' % i, U[i], tot, scale=scale_of(M, tot))
        a, b = M.var('a'), M.var('b')
        H = [M.var('H%d' % i, (0.5, 2)) for i in range(nv)]
        C = A([[x[0], y[0]]])
        XV = A([[q, w] for q, w in zip(px, py)])
        U1, U2 = VP.vps_u(C, XV, A(G), SmoothParam=A(s), **k), VP.vps_u(C, XV, A(H), SmoothParam=A(s), **k)
        U3 = VP.vps_u(C, XV, A([a * g + b * h for g, h in zip(G, H)]), SmoothParam=A(s), **k)
        M.eq('linear', U3, a * U1 + b * U2, scale=scale_of(M, a * U1, b * U2))
    return run


def vp(visc):
    def run(M):
        x, y, px, py = M.var('x'), M.var('y'), M.var('px'), M.var('py')
        M.assume((x - px) * (x - px) + (y - py) * (y - py), '>', M.q(1, 10**4))
        a, b, g1, g2, rc = M.var('a'), M.var('b'), M.var('g1'), M.var('g2'), M.pos('rc')
        f = lambda g: M.wiz.VortexPoint.vp_u(M.arr([x, y]), M.arr([px, py]), g, rcore=rc, bViscous=visc)
        u1, u2, u3 = f(g1), f(g2), f(a * g1 + b * g2)
        for i in range(2):
            M.eq('linear %d' % i, u3[i], a * u1[i] + b * u2[i], scale=scale_of(M, a * u1[i], b * u2[i]))
    return run


def lines(visc):
    def run(M):
        x, y, z = M.var('x', (0.5, 2)), M.var('y', (0.5, 2)), M.var('z')
        e = unit3(M)
        a, b, g1, g2 = M.var('a'), M.var('b'), M.var('g1'), M.var('g2')
        t = M.pos('t', (0.1, 1))
        n2 = x * x + y * y + z * z
        na = M.np.sqrt(n2)
        M.assume(n2, '>', M.q(1, 10**4))
        M.assume(na * (na - (x * e[0] + y * e[1] + z * e[2])), '>', M.q(1, 10**6))
        f = lambda g: M.wiz.VortexLine.vl_semiinf_u(x, y, z, e[0], e[1], e[2], g, visc, t)
        u1, u2, u3 = f(g1), f(g2), f(a * g1 + b * g2)
        M.eq('linear', u3, a * u1 + b * u2, scale=scale_of(M, a * u1, b * u2))
    return run


def svc_all(M):
    r, psi, z = M.pos('r'), M.var('psi', (0.2, 1)), M.var('z')
    gt, gl, Gr = M.var('gt', (0.5, 2)), M.var('gl', (0.5, 2)), M.var('Gr', (0.5, 2))
    R, m = M.pos('R'), M.var('m', (-1, 1))
    S = M.wiz.VortexCylinderSkewed
    A = lambda v: M.arr([v])
    M.assume(r, '>', M.q(1, 100))
    a = [A(r), A(psi), A(z)]
    M.assume(Gr, '!=')
    M.assume(z, '!=')
    M.assume(m, '!=')
    no_skew_line(M, r * M.np.cos(psi), r * M.np.sin(psi), z, P(m=m))
    u = S.svc_u_polar(*a, gt, gl, Gr, R=R, m=m, ntheta=3)
    t = S.svc_tang_u_polar(*a, gt, R=R, m=m, ntheta=3)
    l = S.svc_longi_u_polar(*a, gl, R=R, m=m, ntheta=3)
    o = S.svc_root_u_polar(*a, Gr, m=m)
    for c in range(3):
        M.eq('sum of components %d' % c, u[c], t[c] + l[c] + o[c], scale=scale_of(M, t[c], l[c], o[c]))


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for el in registry():
        cs.append(Case('lin_' + el.name, lin(el), 'one point, all strengths and factors', cost=el.cost, assume_defined=True))
        if el.polar:
            cs.append(Case('lin_%s_pol' % el.name, lin(el, polar=True), 'one point, polar components', cost=el.cost, assume_defined=True))
    for el in cyl_polar_registry():
        cs.append(Case('lin_' + el.name, lin(el, True), 'one point', cost=el.cost, assume_defined=True))
    for pol in (0, 1):
        for e in (0, 1):
            cs.append(Case('rings_pol%d_eps%d' % (pol, e), rings(bool(pol), e, e), '2 rings, any positions, arbitrary member function', overrides=stub_ov(['VortexRing.ring_u'])))
    n = (2, 2) if not th else (3, 2)
    for w, names in (('vcs_tang', ['VortexCylinder.vc_tang_u']), ('vcs_longi', ['VortexCylinder.vc_longi_u']),
                     ('svcs_tang', ['VortexCylinderSkewed.svc_tang_u']), ('svcs_longi', ['VortexCylinderSkewed.svc_longi_u'])):
        cs.append(Case('coll_' + w, coll(w, *n), '%d x %d cylinders, arbitrary member function' % n, overrides=stub_ov(names)))
        cs.append(Case('coll_perm_' + w, coll(w, 2, 1, order=True), '2 x 1 cylinders reversed, arbitrary member function', overrides=stub_ov(names)))
    for mo, od in ((0, 2), (1, 2), (1, 4), (1, 6), (1, 8), (2, 2), (2, 4), (2, 6), (2, 8), (2, 10)):
        nv = 2
        cs.append(Case('vps_m%d_k%d' % (mo, od), vps(mo, od, nv, 2 if th else 1), '%d vortices, %d point' % (nv, 2 if th else 1), cost=2, assume_defined=True))
    cs.append(Case('vps_2pts', vps(0, 2, 1, 2), '1 vortex, 2 points', cost=2, assume_defined=True))
    for v in (False, True):
        cs.append(Case('vp_visc%d' % v, vp(v), 'one vortex'))
    for v in (0, 1, 2, 3, 5):
        cs.append(Case('line_visc%d' % v, lines(v), 'one line, any direction', assume_defined=True))
    cs.append(Case('svc_u_polar', svc_all, 'ntheta=3', cost=3, assume_defined=True))
    return cs
