"""C08: dimensional similarity: scaled lengths (and circulations, wind and rotation speeds for the solvers) scale the results
by the power that their dimension requires"""
from symwiz.harness import Case
from .common import no_dline_pol, registry, cyl_polar_registry, call1, sc1, unit3, P


def scaled(M, e, p, k):
    d = {}
    for n, v in p.__dict__.items():
        if n in e.lengths:
            v = [k * x for x in v] if isinstance(v, (list, tuple)) else k * v
        d[n] = v
    return P(**d)


def element(e, polar, mode=None):
    def run(M):
        x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
        g, k = M.var('g', (0.5, 2)), M.pos('scale', (0.4, 3))
        M.assume(g, '!=')
        p = e.params(M)
        if 'cut' in e.dimless:
            M.assume(p.cut, '>', 0)
            d2, c2 = x * x + y * y + z * z, p.cut * p.cut * p.R * p.R
            M.assume(d2, '<=' if mode == 'near' else '>', c2)
            if mode == 'far':
                no_dline_pol(M, x, y, z, p)
                no_dline_pol(M, k * x, k * y, k * z, p)
        if mode == 'up':
            M.assume(z, '<', 0)
        if mode == 'plane':
            z = 0 * z
        e.guard(M, x, y, z, p)
        q = scaled(M, e, p, k)
        e.guard(M, k * x, k * y, k * z, q)
        u = sc1(e.u(M, M.arr([x]), M.arr([y]), M.arr([z]), g, p, polar))
        v = sc1(e.u(M, M.arr([k * x]), M.arr([k * y]), M.arr([k * z]), g, q, polar))
        f = 1
        for _ in range(e.dim):
            f = f * k
        sc = None if M.sym else [float(max(abs(c) for c in u))]
        for i, (a, b) in enumerate(zip(u, v)):
            M.eq('component %d' % i, f * b, a, scale=sc)
    return run


def polar_element(e):
    def run(M):
        r, z, g, k = M.pos('r', (0.3, 2.5)), M.var('z', (-2, 2)), M.var('g', (0.5, 2)), M.pos('scale', (0.4, 3))
        M.assume(g, '!=')
        p = e.params(M)
        q = scaled(M, e, p, k)
        e.guard(M, r, 0 * r, z, p)
        e.guard(M, k * r, 0 * r, k * z, q)
        u = sc1(e.u(M, M.arr([r]), M.arr([0 * r]), M.arr([z]), g, p))
        v = sc1(e.u(M, M.arr([k * r]), M.arr([0 * r]), M.arr([k * z]), g, q))
        f = 1
        for _ in range(e.dim):
            f = f * k
        for i, (a, b) in enumerate(zip(u, v)):
            M.eq('component %d' % i, f * b, a, scale=None if M.sym else [float(max(abs(c) for c in u))])
    return run


def axis(name, dim):
    """on the axis and at the rim, where the code uses special formulas"""
    def run(M):
        z, g, k, R = M.var('z', (-2, 2)), M.var('g', (0.5, 2)), M.pos('scale', (0.4, 3)), M.pos('R')
        w = M.wiz
        f = {'ring': lambda z, R: w.VortexRing.ring_u(M.arr([0 * z]), M.arr([0 * z]), M.arr([z]), Gamma=g, R=R),
             'ring_polar': lambda z, R: w.VortexRing.ring_u_polar(M.arr([0 * z]), M.arr([z]), Gamma=g, r0=R),
             'vc': lambda z, R: w.VortexCylinder.vc_tang_u(M.arr([0 * z]), M.arr([0 * z]), M.arr([z]), gamma_t=g, R=R),
             'cyl': lambda z, R: w.VortexCylinder.cylinder_tang_u(M.arr([0 * z]), M.arr([0 * z]), M.arr([z]), gamma_t=g, R=R, z1=-R, z2=2 * R),
             'rim_ring': lambda z, R: w.VortexRing.ring_u(M.arr([R]), M.arr([0 * z]), M.arr([0 * z]), Gamma=g, R=R),
             'rim_vc': lambda z, R: w.VortexCylinder.vc_tang_u(M.arr([R]), M.arr([0 * z]), M.arr([0 * z]), gamma_t=g, R=R)}[name]
        u, v = sc1(f(z, R)), sc1(f(k * z, k * R))
        for i, (a, b) in enumerate(zip(u, v)):
            M.eq('component %d' % i, (k if dim else 1) * b, a)
    return run


def line(model):
    def run(M):
        x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
        e = unit3(M)
        g, t, k = M.var('g', (0.5, 2)), M.pos('t', (0.1, 2)), M.pos('scale', (0.4, 3))
        n = M.np.sqrt(x * x + y * y + z * z)
        den = n * (n - (x * e[0] + y * e[1] + z * e[2]))
        for c in (1, k * k):
            M.assume(c * den, '>=', M.q(1, 10**6))
            M.assume(c * n * n, '>=', M.q(1, 10**4))
        f = M.wiz.VortexLine.vl_semiinf_u
        u, v = f(x, y, z, *e, g, model, t), f(k * x, k * y, k * z, *e, g, model, k * k * t if model == 5 else k * t)
        for i in range(3):
            M.eq('component %d' % i, k * v[i], u[i], scale=1e-6)
    return run


def points(key):
    def run(M):
        c = [M.var('c%d' % i, (-2, 2)) for i in range(2)]
        p = [M.var('p%d' % i, (-2, 2)) for i in range(4)]
        G, s, k = [M.var('G%d' % i, (0.5, 2)) for i in range(2)], [M.pos('s%d' % i) for i in range(2)], M.pos('scale', (0.4, 3))
        for j in range(2):
            r2 = (c[0] - p[2 * j]) ** 2 + (c[1] - p[2 * j + 1]) ** 2
            for f in (1, k * k):
                M.assume(f * r2, '>=', M.q(1, 10**8))
        f = M.wiz.VortexPoint.vps_u

        def call(k):
            kw = dict(SmoothModel=key[0], KernelOrder=key[1], SmoothParam=M.arr([k * v for v in s])) if key else {}
            return f(M.arr([[k * c[0], k * c[1]]]), M.arr([[k * p[0], k * p[1]], [k * p[2], k * p[3]]]), M.arr(G), **kw)
        u, v = call(1 + 0 * k), call(k)
        for i in range(2):
            M.eq('component %d' % i, k * v[0, i], u[0, i], scale=1e-6)
    return run


def collection(name):
    """several members with their centres"""
    def run(M):
        k = M.pos('scale', (0.4, 3))
        x, y, z = M.var('x', (3, 4)), M.var('y', (3, 4)), M.var('z', (-2, 2))
        g = [M.var('g%d' % i, (0.5, 2)) for i in range(2)]
        R = [M.pos('R%d' % i, (0.5, 1.2)) for i in range(2)]
        c = [M.var('c%d' % i, (-1, 1)) for i in range(3)]
        for i in range(2):
            M.assume(g[i], '><'[i])
            r2 = (x - c[0]) ** 2 + (y - c[1]) ** 2
            M.assume(r2 - R[i] * R[i], '>=', R[i] * R[i] / 100)
            r2m = (x - c[0]) ** 2 + (y + c[1]) ** 2
            M.assume(r2m - R[i] * R[i], '>=', R[i] * R[i] / 100)

        M.assume((z - c[2]) * (z - c[2]), '>=', M.q(1, 10**6))
        M.assume(k * k * (z - c[2]) * (z - c[2]), '>=', M.q(1, 10**6))

        def call(k):
            X, Y, Z = M.arr([k * x]), M.arr([k * y]), M.arr([k * z])
            if name == 'rings':
                return sc1(M.wiz.VortexRing.rings_u(X, Y, Z, M.arr(g), M.arr([k * v for v in R]), M.arr([k * c[0]] * 2), M.arr([k * c[1]] * 2), M.arr([k * c[2]] * 2), polar_out=False))
            C = [M.arr([k * v]) for v in c]
            n = 1 if name == 'vcs_ground' else 2
            return sc1(M.wiz.VortexCylinder.vcs_tang_u(X, Y, Z, M.arr([g[:n]]), M.arr([[k * v for v in R[:n]]]), *C, Ground=name == 'vcs_ground'))
        u, v = call(1 + 0 * k), call(k)
        for i in range(3):
            M.eq('component %d' % i, (k if name == 'rings' else 1) * v[i], u[i], scale=1e-6)
    return run


def solver(fn, sw, what, n=2):
    def run(M):
        k = M.pos('scale', (0.4, 3))
        r0 = M.pos('r0', (0.2, 0.5))
        r = [r0]
        for i in range(1, n):
            r.append(r[-1] + M.pos('dr%d' % i, (0.2, 0.5)))
        R, U, Om = M.pos('R', (1, 2)), M.pos('U0', (5, 9)), M.pos('Omega', (5, 9))
        G = [M.pos('G%d' % i, (0.1, 0.5)) * M.pi * U * U / Om for i in range(n)]
        S = M.wiz.Solver
        a = ([x for x in r], G, R, U, Om)
        if what == 'length':
            b = ([k * x for x in r], [k * x for x in G], k * R, U, Om / k)
            pw = dict(gt=1, gl=1, Gr=k, h=k)
        else:
            b = (r, [k * x for x in G], R, k * U, k * Om)
            pw = dict(gt=k, gl=k, Gr=k, h=1)

        def call(r, G, R, U, Om):
            if fn == 'discr':
                return S.WakeVorticityFromCirculation_Discr(M.arr(r), M.arr(G), R, U, Om, 2, sw)
            return S.WakeVorticityFromCirculation_Cont(M.arr(r), M.arr(G), R, U, Om, sw)
        o, p = call(*a), call(*b)
        M.eq('gamma_t', p[0], o[0] * pw['gt'])
        if sw:
            M.eq('gamma_l', p[1], o[1] * pw['gl'])
            M.eq('Gamma_r', p[2], o[2] * pw['Gr'])
        for q in ('a', 'a_prime'):
            M.eq(q, p[3][q], o[3][q], scale=1e-6)
        M.eq('pitch', p[3]['h'], o[3]['h'] * pw['h'])
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for e in registry():
        for pol in ([False, True] if e.polar else [False]):
            if pol and not th and (e.cost > 2 or 'eps' in e.lengths):
                continue
            modes = ['near', 'far'] if 'cut' in e.dimless else [None]
            for m in modes:
                cs.append(Case('%s%s%s' % (e.name, '_pol' if pol else '', '_' + m if m else ''), element(e, pol, m), '1 point', cost=e.cost * 2, assume_defined=True))
    for e in cyl_polar_registry():
        cs.append(Case(e.name, polar_element(e), '1 point', cost=2, assume_defined=True))
    for n, d in (('ring', 1), ('ring_polar', 1), ('vc', 0), ('cyl', 0), ('rim_ring', 1), ('rim_vc', 0)):
        cs.append(Case('special_' + n, axis(n, d), '1 point', assume_defined=True))
    for m in (0, 1, 2, 3, 5):
        cs.append(Case('line%d' % m, line(m), '1 point, any direction', cost=2, assume_defined=True))
    for k in (None, (1, 2), (1, 6), (2, 2), (2, 8)):
        cs.append(Case('points_%s' % ('ideal' if not k else '%d_%d' % k), points(k), '1 point, 2 vortices', cost=2, assume_defined=True))
    for n in ('rings', 'vcs', 'vcs_ground'):
        cs.append(Case(n, collection(n), '1 point, 2 members', cost=3, assume_defined=True))
    for fn in ('discr', 'cont'):
        for sw in (True, False):
            for w in ('length', 'speed'):
                cs.append(Case('%s_%s_%s' % (fn, 'swirl' if sw else 'noswirl', w), solver(fn, sw, w), '2 stations', cost=4, assume_defined=True))
    return cs
