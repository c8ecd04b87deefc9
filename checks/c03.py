"""C03: elements that are built from one another agree with each other"""
from symwiz.harness import Case
from .common import call1, sc1, no_dline_pol, unit3


def pt(M):
    return M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))


def off_rim(M, r, R):
    M.assume((r - R) * (r - R), '>=', R * R / M.q(10**8))
    M.assume(r, '>=', R / M.q(10**5))


def eqs(M, u, v, sc=None):
    M.true('number of components', len(u) == len(v))
    for i, (a, b) in enumerate(zip(u, v)):
        M.eq('component %d' % i, a, b, scale=1e-6 if sc is None else sc)


def ring_forms(name, eps=False):
    """every formulation against ring_u at the same radius"""
    def run(M):
        G, R, z, r = M.var('G', (0.5, 2)), M.pos('R'), M.var('z', (-2, 2)), M.pos('r', (0.3, 2))
        V = M.wiz.VortexRing
        off_rim(M, r, R)
        ref = V.ring_u_polar_singular(r, z, G, R)
        if name == 'b':
            o = V.ring_u_polar_singularb(r, z, G, R)
        elif name == 'polar':
            z0 = M.var('z0', (-1, 1))
            o = call1(M, V.ring_u_polar, r, z + z0, Gamma=G, r0=R, z0=z0)
        elif name == 'polar_eps':
            z0, e = M.var('z0', (-1, 1)), M.pos('eps', (0.05, 0.2))
            M.assume(4 * ((r - R) ** 2 + z * z), '>=', e * e)
            o = call1(M, V.ring_u_polar, r, z + z0, Gamma=G, r0=R, z0=z0, epsilon=e)
        elif name == 'polar_linear':
            e = M.pos('eps', (0.05, 0.2))
            M.assume(e, '<', R)
            M.assume(4 * ((r - R) ** 2 + z * z), '>=', e * e)
            o = call1(M, V.ring_u_polar, r, z, Gamma=G, r0=R, epsilon=e, reg_method='linear')
        else:
            o = call1(M, V.ring_u, r, 0 * r, z, Gamma=G, R=R, **({'epsilon': M.pos('eps', (0.05, 0.2))} if eps else {}))
        eqs(M, o, ref)
    return run


def ring_at_rim(M):
    """the two guarded formulations at the ring itself and on its axis"""
    G, R, z = M.var('G', (0.5, 2)), M.pos('R'), M.var('z', (-2, 2))
    V = M.wiz.VortexRing
    eqs(M, call1(M, V.ring_u, R, 0 * R, 0 * z, Gamma=G, R=R), call1(M, V.ring_u_polar, R, 0 * z, Gamma=G, r0=R))
    eqs(M, call1(M, V.ring_u, 0 * R, 0 * R, z, Gamma=G, R=R), call1(M, V.ring_u_polar, 0 * R, z, Gamma=G, r0=R))


def cyl_raw(M):
    x, y, z = pt(M)
    g, R = M.var('g', (0.5, 2)), M.pos('R')
    r = M.np.sqrt(x * x + y * y)
    off_rim(M, r, R)
    V = M.wiz.VortexCylinder
    eqs(M, call1(M, V.vc_tang_u, x, y, z, gamma_t=g, R=R), call1(M, V.cylinder_tang_semi_inf_u_raw, x, y, z, gamma_t=g, R=R))


def cyl_ring(finite, cart):
    """d/dz of a cylinder is the ring (at its start, minus the one at its end)"""
    def run(M):
        x, y, z = pt(M)
        g, R = M.var('g', (0.5, 2)), M.pos('R')
        if not cart:
            x, y = M.pos('r', (0.3, 2)), 0 * y
            off_rim(M, x, R)
        else:
            r2 = x * x + y * y
            M.assume(r2, '>=', R * R / M.q(10**10))
            M.assume((r2 - R * R) * (r2 - R * R), '>=', R * R * R * R / M.q(10**8))
        V, W = M.wiz.VortexCylinder, M.wiz.VortexRing
        ring = lambda d: call1(M, W.ring_u, x, y, d, Gamma=g, R=R, polar_out=not cart)
        if finite:
            z1, L = M.var('z1', (-2, 0)), M.pos('L')
            M.assume((z - z1) ** 2, '>=', M.q(1, 10**6))
            M.assume((z - z1 - L) ** 2, '>=', M.q(1, 10**6))
            f = lambda z: call1(M, V.cylinder_tang_u, x, y, z, gamma_t=g, R=R, z1=z1, z2=z1 + L, polar_out=not cart)
        else:
            M.assume(z * z, '>=', M.q(1, 10**6))
            f = lambda z: call1(M, V.vc_tang_u, x, y, z, gamma_t=g, R=R, polar_out=not cart)
        u, d = M.grad(f, (z,))
        ref = ring(z)
        if finite:
            a, b = ring(z - z1), ring(z - z1 - L)
            ref = [p - q for p, q in zip(a, b)]
        sc = None if M.sym else [float(max(abs(v[0]) for v in d))]
        for i in range(len(u)):
            M.eq('rate of component %d' % i, d[i][0], ref[i], fd=True, scale=sc)
    return run


def longi_line(M):
    """curl of the swirl of a longitudinal cylinder"""
    r, z, g, R = M.pos('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('g', (0.5, 2)), M.pos('R')
    off_rim(M, r, R)
    M.assume(z, '!=')
    V, W = M.wiz.VortexCylinder, M.wiz.VortexRing
    u, d = M.grad(lambda r, z: call1(M, V.vc_longi_u, r, 0 * r, z, gamma_l=g, R=R, polar_out=True), (r, z))
    # the filaments end at the rim: the curl of the field is the field of a ring of sinks there
    wr, wz = -d[1][1], d[1][0] + u[1] / r
    a2, b2 = (R + r) ** 2 + z * z, (R - r) ** 2 + z * z
    m = 4 * r * R / a2
    K, E = V.ellipk(m), V.ellipe(m)
    a = M.np.sqrt(a2)
    wr_ref = -g * R / (2 * M.pi * r * a) * (K + (r * r - R * R - z * z) / b2 * E)
    wz_ref = -g * R * z / (M.pi * a * b2) * E
    sc = None if M.sym else [float(max(abs(wr), abs(wz)))]
    M.eq('radial vorticity', wr, wr_ref, fd=True, scale=sc)
    M.eq('axial vorticity', wz, wz_ref, fd=True, scale=sc)


def cyl_diff(cart, where=None):
    def run(M):
        x, y, z = pt(M)
        g, R, z1, L = M.var('g', (0.5, 2)), M.pos('R'), M.var('z1', (-2, 0)), M.pos('L')
        if where == 'axis':
            x, y = 0 * x, 0 * y
        elif where == 'rim':
            x, y = R, 0 * y
            M.assume((z - z1) ** 2, '>=', R * R / M.q(10**8))
            M.assume((z - z1 - L) ** 2, '>=', R * R / M.q(10**8))
        else:
            off_rim(M, M.np.sqrt(x * x + y * y), R)
        V = M.wiz.VortexCylinder
        f = lambda d: call1(M, V.vc_tang_u, x, y, d, gamma_t=g, R=R, polar_out=not cart)
        a, b = f(z - z1), f(z - z1 - L)
        eqs(M, call1(M, V.cylinder_tang_u, x, y, z, gamma_t=g, R=R, z1=z1, z2=z1 + L, polar_out=not cart), [p - q for p, q in zip(a, b)])
    return run


def lines(which):
    def run(M):
        x, y, z = pt(M)
        G = M.var('G', (0.5, 2))
        M.assume(G, '!=')
        w = M.wiz
        if which == 'skewed':
            m = M.var('m', (-1, 1))
            c = M.np.sqrt(1 + m * m)
            n = M.np.sqrt(x * x + y * y + z * z)
            M.assume(x * x + y * y, '>', M.q(1, 10**4))
            M.assume(n * (n - (x * m / c + z / c)), '>', M.q(1, 10**6))
            a = w.VortexLine.vl_semiinf_u(x, y, z, m / c, 0 * m, 1 / c, G, 0, 0)
            eqs(M, call1(M, w.VortexCylinderSkewed.svc_root_u, x, y, z, Gamma_r=G, m=m), tuple(a))
            return
        M.assume(x * x + y * y, '>', M.q(1, 10**4))
        n = M.np.sqrt(x * x + y * y + z * z)
        M.assume(n * (n - z), '>', M.q(1, 10**6))
        s = call1(M, w.VortexLine.vl_semiinf_straight_u, x, y, z, Gamma_r=G)
        if which == 'general':
            eqs(M, tuple(w.VortexLine.vl_semiinf_u(x, y, z, 0, 0, 1, G, 0, 0)), s)
        elif which == 'root':
            eqs(M, call1(M, w.VortexCylinder.vc_root_u, x, y, z, Gamma_r=G), s)
        else:
            eqs(M, call1(M, w.VortexCylinderSkewed.svc_root_u, x, y, z, Gamma_r=G, m=0), s)
    return run


def line_pair(M):
    """two opposite semi-infinite lines are an infinite one: Gamma/(2 pi) e x r / |e x r|^2"""
    x, y, z = pt(M)
    e = unit3(M)
    G = M.var('G', (0.5, 2))
    n = M.np.sqrt(x * x + y * y + z * z)
    dot = x * e[0] + y * e[1] + z * e[2]
    for s in (1, -1):
        M.assume(n * (n - s * dot), '>=', M.q(1, 10**6))
    M.assume(n * n, '>=', M.q(1, 10**4))
    f = M.wiz.VortexLine.vl_semiinf_u
    a, b = f(x, y, z, *e, G, 0, 0), f(x, y, z, -e[0], -e[1], -e[2], -G, 0, 0)
    c = (e[1] * z - e[2] * y, e[2] * x - e[0] * z, e[0] * y - e[1] * x)
    h2 = n * n - dot * dot
    for i in range(3):
        M.eq('component %d' % i, (a[i] + b[i]) * h2, G / (2 * M.pi) * c[i], scale=1e-6)


def doublets(M):
    r, z, z0, m = M.pos('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('z0', (-1, 1)), M.var('m', (0.5, 2))
    M.assume((r * r + (z - z0) * (z - z0)) ** M.q(3, 2), '>=', M.q(1, 1000))
    V = M.wiz.VortexDoublet
    c = call1(M, V.doublet_u, r, 0 * r, z, m=[0, 0, m], x0=[0, 0, z0])
    p = call1(M, V.doublet_u_polar, r, z, m, z0=z0)
    eqs(M, p, (c[0], c[2]))
    M.eq('azimuthal', c[1], 0, scale=1e-6)


def dl_forms(M):
    r, z, q = M.pos('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('q', (0.5, 2))
    M.assume(r, '>', M.q(1, 100))
    M.assume(z * z, '>', M.q(1, 10**8))
    V = M.wiz.VortexDoublet
    c = call1(M, V.doublet_line_u, r, 0 * r, z, q)
    eqs(M, call1(M, V.doublet_line_polar_u, r, z, q), (c[0], c[2]))
    M.eq('azimuthal', c[1], 0, scale=1e-6)


def dl_axis(M):
    z, q = M.pos('mz', (0.5, 3)), M.var('q', (0.5, 2))
    M.assume(z, '>', M.q(1, 100))
    V = M.wiz.VortexDoublet
    c = call1(M, V.doublet_line_u, 0 * z, 0 * z, -z, q)
    eqs(M, call1(M, V.doublet_line_polar_u, 0 * z, -z, q), (c[0], c[2]))


def dl_row(kind):
    """derivative along the line = doublet at its start (minus the one at its end)"""
    def run(M):
        x, y, z, q = *pt(M), M.var('q', (0.5, 2))
        V = M.wiz.VortexDoublet
        if kind == 'polar':
            r = M.pos('r', (0.3, 2))
            M.assume(r, '>', M.q(1, 100))
            M.assume(z * z, '>', M.q(1, 10**8))
            u, d = M.grad(lambda z: call1(M, V.doublet_line_polar_u, r, z, q), (z,))
            ref = call1(M, V.doublet_u_polar, r, z, q)
            rate = [d[0][0], d[1][0]]
        else:
            m = M.var('m', (-1, 1)) if 'skew' in kind else 0
            k = {'m': m} if 'skew' in kind else {}
            if M.thorough:
                M.assume(y * y + (x - m * z) * (x - m * z), '>', M.q(1, 10**4))
            else:
                M.assume(y, '>', M.q(1, 1000))
            M.assume((x * x + y * y + z * z) ** M.q(3, 2), '>=', M.q(1, 1000))
            ref = call1(M, V.doublet_u, x, y, z, m=[0, 0, q])
            if 'fin' in kind:
                L = k['L'] = M.pos('L')
                a2, b, c2 = x * x + y * y + z * z, m * x + z, 1 + m * m
                M.assume(a2 * c2 - b * b, '>', M.q(1, 10**4))
                M.assume(((x - m * L) ** 2 + y * y + (z - L) ** 2) ** M.q(3, 2), '>=', M.q(1, 1000))
                e = call1(M, V.doublet_u, x, y, z, m=[0, 0, q], x0=[m * L, 0, L])
                ref = [a - b for a, b in zip(ref, e)]
            u, d = M.grad(lambda x, z: call1(M, V.doublet_line_u, x, y, z, q, **k), (x, z))
            rate = [m * d[i][0] + d[i][1] for i in range(3)]
        sc = None if M.sym else [float(max(abs(v) for v in rate))]
        for i in range(len(rate)):
            M.eq('rate of component %d' % i, rate[i], ref[i], fd=True, scale=sc)
    return run


def dl_diff(skew):
    def run(M):
        x, y, z, q = *pt(M), M.var('q', (0.5, 2))
        m, L = M.var('m', (-1, 1)) if skew else 0, M.pos('L')
        a2, b, c2 = x * x + y * y + z * z, m * x + z, 1 + m * m
        M.assume(a2 * c2 - b * b, '>', M.q(1, 10**4))
        M.assume(y, '>', M.q(1, 1000))   # off the line, whatever its length
        V = M.wiz.VortexDoublet
        k = {'m': m} if skew else {}
        A, B = call1(M, V.doublet_line_u, x, y, z, q, **k), call1(M, V.doublet_line_u, x - m * L, y, z - L, q, **k)
        eqs(M, call1(M, V.doublet_line_u, x, y, z, q, L=L, **k), [p - r for p, r in zip(A, B)])
    return run


def dl_num(kind, n):
    def run(M):
        q, L = M.var('q', (0.5, 2)), M.pos('L', (1, 3))
        V = M.wiz.VortexDoublet
        dz = L / (n - 1)
        if kind == 'polar':
            r, z, z0 = M.pos('r', (0.3, 2)), M.var('z', (-2, 2)), M.var('z0', (-1, 1))
            M.assume(r, '>=', M.q(1, 10))
            o = call1(M, V.doublet_line_polar_u_num, r, z, q, z0=z0, zmax=z0 + L, nQuad=n)
            s = [call1(M, V.doublet_u_polar, r, z, q * dz, z0=z0 + k * dz) for k in range(n)]
        else:
            x, y, z = pt(M)
            m = M.var('m', (-1, 1))
            M.assume(y, '>=', M.q(1, 10))
            o = call1(M, V.doublet_line_u_num, x, y, z, q, m=m, zmax=L, nQuad=n)
            s = [call1(M, V.doublet_u, x, y, z, m=[0, 0, q * dz], x0=[m * k * dz, 0, k * dz]) for k in range(n)]
        eqs(M, o, [sum(c[i] for c in s) for i in range(len(o))])
    return run


def vcff(where, cart):
    def run(M):
        x, y, z = pt(M)
        g, R, cut = M.var('g', (0.5, 2)), M.pos('R'), M.pos('cut', (0.8, 2))
        V = M.wiz.VortexCylinder
        r = M.np.sqrt(x * x + y * y)
        call = lambda: call1(M, V.vc_tang_u_doublet, x, y, z, gamma_t=g, R=R, r_bar_Cut=cut, polar_out=not cart)
        d2, c2 = x * x + y * y + z * z, cut * cut * R * R
        if where == 'near':
            M.assume(d2, '<=', c2)
            off_rim(M, r, R)
            o = call()
            ref = call1(M, V.vc_tang_u, x, y, z, gamma_t=g, R=R, polar_out=not cart)
        else:
            M.assume(d2, '>', c2)
            no_dline_pol(M, x, y, z, None)
            o = call()
            ur, uz = call1(M, M.wiz.VortexDoublet.doublet_line_polar_u, r, z, g * M.pi * R * R)
            ref = (ur * x / r, ur * y / r, uz) if cart else (ur, uz)
        eqs(M, o, ref)
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = [Case('ring_' + n, ring_forms(n), 'one point off the ring', assume_defined=True) for n in ('b', 'polar', 'polar_eps', 'polar_linear', 'u')]
    cs += [Case('ring_u_eps', ring_forms('u', True), 'one point off the ring', assume_defined=True), Case('ring_special', ring_at_rim, 'ring and axis', assume_defined=True),
           Case('cyl_raw', cyl_raw, 'one point', assume_defined=True)]
    for fi in (False, True):
        for c in (False, True) if th or not fi else (False,):
            cs.append(Case('cyl_rings%s%s' % ('_fin' if fi else '', '_cart' if c else ''), cyl_ring(fi, c), 'one point', cost=6, assume_defined=True))
    cs.append(Case('longi_start', longi_line, 'one point', cost=2, assume_defined=True))
    for c in (False, True):
        cs.append(Case('cyl_diff' + ('_cart' if c else ''), cyl_diff(c), 'one point, any position and length', cost=3, assume_defined=True))
    for w in ('axis', 'rim'):
        cs.append(Case('cyl_diff_' + w, cyl_diff(False, w), 'any height', assume_defined=True))
    for w in ('general', 'root', 'svc', 'skewed'):
        cs.append(Case('line_' + w, lines(w), 'one point off the line', cost=2, assume_defined=True))
    cs += [Case('line_pair', line_pair, 'one point, any direction', assume_defined=True), Case('doublet_forms', doublets, 'one point', assume_defined=True),
           Case('dline_forms', dl_forms, 'one point off the line', assume_defined=True), Case('dline_axis', dl_axis, 'on the axis upstream', assume_defined=True)]
    for k in ('polar', 'straight', 'skew', 'fin', 'skew_fin'):
        cs.append(Case('dline_row_' + k, dl_row(k), 'one point off the line', cost=3, assume_defined=True))
    for s in (False, True) if th else (True,):      # any skew covers the straight line
        cs.append(Case('dline_diff%d' % s, dl_diff(s), 'one point, any length', cost=8, assume_defined=True))
    for k in ('polar', 'cart'):
        for n in ((2, 3, 4, 5) if th else (2, 3)):
            cs.append(Case('dline_num_%s_%d' % (k, n), dl_num(k, n), 'one point, %d doublets' % n, cost=2, assume_defined=True))
    for w in ('near', 'far'):
        for c in (False, True):
            cs.append(Case('vcff_%s%s' % (w, '_cart' if c else ''), vcff(w, c), 'one point, any cut-off', cost=3, assume_defined=True))
    return cs
