"""C07: arrays of control points are treated pointwise, keep their shape and are left unchanged"""
from symwiz.harness import Case
from symwiz import stubs
from .common import registry, cyl_polar_registry, P

SHAPES = {'col': (2, 1), 'row': (1, 2), 'mat': (2, 2)}


def point(M, el, kind, i, p, polar_in):
    """a control point of the given kind"""
    if (el.axi or el.name in ('sv_tang', 'sv_longi')) and not polar_in and not (M.thorough and el.name in ('ring', 'vc', 'longi', 'cyl_finite')):
        # a point of a half plane through the axis (another one for each point): radius without a root
        r, z = M.pos('rp%d' % i, (0.3, 2)), M.var('zp%d' % i, (-2, 2))
        a, b, c = ((3, 4, 5), (-5, 12, 13))[i % 2]
        x, y = M.q(a, c) * r, M.q(b, c) * r
    else:
        x, y, z = M.var('xp%d' % i, (0.3, 2)), M.var('yp%d' % i, (0.3, 2)), M.var('zp%d' % i, (-2, 2))
    if polar_in:
        y = 0 * x
        M.assume(x, '>=')
    if kind == 'axis':
        x, y = 0 * x, 0 * y
    elif kind == 'rim':
        x, y, z = p.R, 0 * y, 0 * z
    elif kind == 'edge':
        x, y = p.R, 0 * y
        M.assume(z, '!=')
    elif kind == 'plane':
        z = 0 * z
    elif kind == 'origin':
        x, y, z = 0 * x, 0 * y, 0 * z
    if kind == 'any' and not M.thorough:    # one point downstream, one upstream of the start of the element
        d = z - getattr(p, 'z0', 0)
        if i == 0:
            M.assume(d, '>', M.q(1, 1000))
        else:
            M.assume(d, '<', M.q(-1, 1000))
    if kind in ('any', 'plane'):
        el.guard(M, x, y, z, p)
        if el.name in ('dline', 'dline_skew', 'dline_fin', 'dline_num', 'doublet'):
            M.assume(y, '>', M.q(1, 1000))     # the doublet lines have an absolute core: stay out of it
    return x, y, z


def build(M, pts, lay, shape):
    return [M.arr([pts[k][c] for k in lay], shape) for c in range(3)]


def same_args(M, what, before, after):
    for i, (a, b) in enumerate(zip(before, after)):
        M.true('%s %d keeps its shape' % (what, i), a.shape == b.shape)
        M.eq('%s %d is unchanged' % (what, i), a, b, exact=True)


def elem(el, kinds, polar_in=False, polar=False, shape=None):
    """result of an array of points = results of the points alone"""
    def run(M):
        p = el.params(M)
        if 'cut' in el.dimless:
            M.assume(p.cut, '>', 0)
        g = M.var('g', (0.5, 2))
        M.assume(g, '!=')
        pts = [point(M, el, k, i, p, polar_in) for i, k in enumerate(kinds)]
        lay = list(range(len(pts)))
        sh = (len(pts),)
        if shape:
            sh = SHAPES[shape]
            lay = [0, 1, 0, 0] if shape == 'mat' else [0, 1]
        A = build(M, pts, lay, sh)
        B = [M.copy(a) for a in A]
        u = el.u(M, *A, g, p, polar)
        same_args(M, 'control points', A, B)
        ref = [el.u(M, *[M.arr([c]) for c in q], g, p, polar) for q in pts]
        for c in range(len(u)):
            M.shape('component %d' % c, u[c], sh)
            flat = u[c].reshape(-1)
            for i, k in enumerate(lay):
                M.eq('component %d point %d' % (c, i), flat[i], ref[k][c][0], scale=1e-9)
    return run


WHOLE = [(3, 4, 2), (-5, 12, -3), (0, 0, 1), (4, -3, 0), (0, 0, -2)]


def compare(M, u, v, **k):
    for c in range(len(u)):
        M.shape('component %d' % c, u[c], v[c].shape)
        a, b = u[c].reshape(-1), v[c].reshape(-1)
        for i in range(int(b.size)):
            M.eq('component %d point %d' % (c, i), a[i], b[i], scale=1e-9, **k)


def whole(el, polar_in=False, polar=False):
    """points given as an array of integers: the same velocities as for the same numbers given as floats"""
    def run(M):
        p = el.params(M)
        if 'cut' in el.dimless:
            M.assume(p.cut, '>', 6)
        g = M.var('g', (0.5, 2))
        M.assume(g, '!=')
        for n in ('R', 'L'):
            if hasattr(p, n):
                M.assume(getattr(p, n), '<', 3)
        pts = [q for q in WHOLE if el.sing is None or 'axis' not in el.sing.__name__ or q[0]]
        if polar_in or el.name == 'dline':
            pts = [(abs(q[0]), 0, q[2]) for q in pts if q[0]] if polar_in else [q for q in pts if q[0]]
        A = [M.arr([q[i] for q in pts], integer=True) for i in range(3)]
        B = [M.arr([M.q(q[i]) for q in pts]) for i in range(3)]
        compare(M, el.u(M, *A, g, p, polar), el.u(M, *B, g, p, polar))
        same_args(M, 'control points', A, B)
    return run


def whole_settings(conf, farm=False):
    """turbine set up and evaluated with integers: as with the same numbers given as floats"""
    def run(M):
        def make(integer):
            a = lambda *v: M.arr(list(v) if integer else [M.q(x) for x in v], integer=integer)
            W = M.wiz.WindTurbine.WindTurbine(R=R, r_hub=a(1, 2, 3), U0=a(1, 2, 7), e_shaft_yaw0=a(0, 0, 1), e_vert=a(0, 1, 0), Model='SS' if 'SS' in conf else 'VC')
            W.r = M.arr(r)
            W.gamma_t, W.gamma_l, W.Gamma_r = M.arr(gt), M.arr(gl), Gr
            W.set_chi(chi)
            if 'moved' in conf:
                W.update_position(a(2, 1, 4))
                W.update_wind(a(2, 0, 5))
                W.update_yaw_pos(y)
            P = [a(*[q[i] for q in WHOLE]) for i in range(3)]
            if not farm:
                return W.compute_u(*P, **k)
            F = M.wiz.WindFarm.WindFarm([W])
            F.layout = M.arr([3, 1, 2] if integer else [M.q(x) for x in (3, 1, 2)], (1, 3), integer=integer)
            return F.velocity_field(*P, U0=a(1, 0, 6), **k)
        n = 2 if 'multi' in conf else 1
        R, Gr = M.pos('R'), M.var('Gr', (-2, -0.5))
        r, gt, gl = [M.pos('r%d' % i) for i in range(n)], [M.var('gt%d' % i, (-2, -0.5)) for i in range(n)], [M.var('gl%d' % i, (-2, -0.5)) for i in range(n)]
        for v in gt + gl + [Gr]:
            M.assume(v, '<')
        chi, y = 0, M.var('yaw', (-0.6, 0.6))
        if 'skew' in conf:
            chi = M.var('chi', (0.2, 0.8))
            M.assume(chi, '>', M.q(1, 100))
            M.assume(chi, '<', 1)
        k = dict(longi='SS' not in conf, root='SS' not in conf, no_wake='blank' in conf, ground='ground' in conf)
        compare(M, make(True), make(False))
    return run


def whole_args(which):
    """arrays of integers given to the other functions"""
    def run(M):
        def both(f, *arrs):
            out = []
            for integer in (True, False):
                o = f(*[M.arr(a if integer else _float(M, a), sh, integer=integer) for a, sh in arrs])
                out.append([x for x in (o if isinstance(o, tuple) else (o,)) if getattr(x, 'shape', None) is not None])
            compare(M, out[0], out[1])
        w, S = M.wiz, M.wiz.Solver
        if which.startswith('discr'):
            U0, Om = M.pos('U0', (0.5, 1)), M.pos('Om', (5, 9))
            G = [M.pos('G%d' % i, (0.01, 0.02)) for i in range(2)]
            for x in G:
                M.assume(Om * x, '<', U0 * U0 / 4)
            M.assume(Om, '>', 10 * U0)
            both(lambda r: S.WakeVorticityFromCirculation_Discr(r, M.arr(G), M.q(4), U0, Om, 1, which.endswith('s'))[:3], ([1, 3], (2,)))
        elif which == 'cutoff':
            CT = M.var('CT', (0.2, 0.8))
            both(lambda r: S.Ct_const_cutoff(CT, M.q(2, 10), r, M.q(9, 10)), ([0, 1], (2,)))
        elif which == 'vps':
            xv = M.arr([M.var(n, (-2, -0.5)) for n in ('px0', 'py0', 'px1', 'py1')], (2, 2))
            G, s = M.arr([M.var('G0'), M.var('G1')]), M.arr([M.pos('s0'), M.pos('s1')])
            both(lambda cp: w.VortexPoint.vps_u(cp, xv, G, SmoothModel=1, KernelOrder=2, SmoothParam=s), ([1, 2, 3, 4], (2, 2)))
            cp = M.arr([M.var(n, (-2, -0.5)) for n in ('x0', 'y0', 'x1', 'y1')], (2, 2))
            both(lambda xv, g: w.VortexPoint.vps_u(cp, xv, g), ([1, 2, 3, 4], (2, 2)), ([2, -1], (2,)))
        elif which == 'rings':
            g = [M.var('g%d' % i, (0.5, 2)) for i in range(2)]
            for x in g:
                M.assume(x, '>')
            P = [([q[i] for q in WHOLE], (len(WHOLE),)) for i in range(3)]
            both(lambda x, y, z, R, c: w.VortexRing.rings_u(x, y, z, M.arr(g), R, c, c, c, polar_out=False), *P, ([2, 3], (2,)), ([1, 2], (2,)))
        else:
            g, m = [M.var('g%d' % i, (0.5, 2)) for i in range(2)], M.var('m')
            for x in g:
                M.assume(x, '>')
            P = [([q[i] for q in WHOLE], (len(WHOLE),)) for i in range(3)]
            mod = w.VortexCylinderSkewed if which[0] == 's' else w.VortexCylinder
            k = (M.arr([m, m], (1, 2)),) if which[0] == 's' else ()
            both(lambda x, y, z, R, c: getattr(mod, which)(x, y, z, M.arr(g, (1, 2)), R, *k, c, c, c, Ground=True), *P, ([2, 3], (1, 2)), ([2], (1,)))
    return run


def _float(M, v):
    return [M.q(x) for x in v]


def empty(el, polar_in, polar=False):
    def run(M):
        p = el.params(M)
        if 'cut' in el.dimless:
            M.assume(p.cut, '>', 0)
        g = M.var('g', (0.5, 2))
        M.assume(g, '!=')
        E = M.arr([], (0,))
        u = el.u(M, E, E, E, g, p, polar)
        for c in range(len(u)):
            M.shape('component %d' % c, u[c], (0,))
    return run


def coll(which, shape, ground=False, polar=True):
    """collections: pointwise, shape kept, parameters of the collection unchanged"""
    def run(M):
        n, sh, lay = 2, SHAPES.get(shape, (2,)), [0, 1, 0, 0] if shape == 'mat' else [0, 1]
        pts = [(M.var('x%d' % i, (0.3, 2)), M.var('y%d' % i, (0.3, 2)), M.var('z%d' % i, (-2, 2))) for i in range(n)]
        X, Y, Z = build(M, pts, lay, sh)
        V = lambda nm, pos=False: [M.pos('%s%d' % (nm, i)) if pos else M.var('%s%d' % (nm, i), (0.4, 2)) for i in range(2)]
        g, R, cx, cy, cz, m = V('g'), V('R', True), V('cx'), V('cy'), V('cz'), V('m')
        if polar and which == 'rings':
            cx, cy = [0 * v for v in cx], [0 * v for v in cy]
        for v in g:
            M.assume(v, '>')
        w = M.wiz
        if which == 'rings':
            par = [M.arr(v) for v in (g, R, cx, cy, cz)]
            f = lambda X, Y, Z: w.VortexRing.rings_u(X, Y, Z, *par, polar_out=polar)
        else:
            par = [M.arr(g, (2, 1)), M.arr(R, (2, 1))] + ([M.arr(m, (2, 1))] if which[0] == 's' else []) + [M.arr(v) for v in (cx, cy, cz)]
            mod = w.VortexCylinderSkewed if which[0] == 's' else w.VortexCylinder
            k = {'Ground': True} if ground else {}
            f = lambda X, Y, Z: getattr(mod, which)(X, Y, Z, *par, **k)
        A = [X, Y, Z] + par
        B = [M.copy(a) for a in A]
        u = f(X, Y, Z)
        same_args(M, 'argument', A, B)
        ref = [f(*[M.arr([c]) for c in q]) for q in pts]
        for c in range(len(u)):
            M.shape('component %d' % c, u[c], sh)
            flat = u[c].reshape(-1)
            for i, k in enumerate(lay):
                M.eq('component %d point %d' % (c, i), flat[i], ref[k][c][0], scale=1e-9)
    return run


def vps(model, order):
    def run(M):
        cp = M.arr([M.var(n, (0.5, 2)) for n in ('x0', 'y0', 'x1', 'y1')], (2, 2))
        xv = M.arr([M.var(n, (-2, -0.5)) for n in ('px0', 'py0', 'px1', 'py1')], (2, 2))
        G, s = M.arr([M.var('G0'), M.var('G1')]), M.arr([M.pos('s0'), M.pos('s1')])
        A = [cp, xv, G, s]
        B = [M.copy(a) for a in A]
        f = lambda cp: M.wiz.VortexPoint.vps_u(cp, xv, G, SmoothModel=model, KernelOrder=order, SmoothParam=s)
        U = f(cp)
        same_args(M, 'argument', A, B)
        M.shape('velocity', U, (2, 2))
        for i in range(2):
            q = f(cp[i:i + 1, :])
            for c in range(2):
                M.eq('point %d component %d' % (i, c), U[i, c], q[0, c], scale=1e-9)
    return run


def turb(conf, shape, farm=False):
    """turbine and farm velocities (the induced-velocity functions are arbitrary)"""
    def run(M):
        W = M.wiz.WindTurbine.WindTurbine
        sh, lay = SHAPES.get(shape, (2,)), [0, 1, 0, 0] if shape == 'mat' else [0, 1]
        R = M.pos('R')
        hub, U0 = [M.var('h' + c, (0.2, 1)) for c in 'xyz'], [M.var('U' + c, (1, 4)) for c in 'xyz']
        n = 2 if 'multi' in conf else 1
        WTs = []
        args = []
        for k in range(2 if farm else 1):
            h, u = M.arr([v + k * R for v in hub]), M.arr(U0)
            args += [h, u]
            WT = W(R=R, r_hub=h, U0=u, Model='SS' if 'SS' in conf else 'VCFF' if 'VCFF' in conf else 'VC')
            WT.r = M.arr([M.pos('r%d' % i) for i in range(n)])
            WT.gamma_t = M.arr([M.var('gt%d' % i, (-2, -0.5)) for i in range(n)])
            WT.gamma_l = M.arr([M.var('gl%d' % i, (-2, -0.5)) for i in range(n)])
            WT.Gamma_r = M.var('Gr', (-2, -0.5))
            for i in range(n):
                M.assume(WT.gamma_t[i], '<')
                M.assume(WT.gamma_l[i], '<')
            M.assume(WT.Gamma_r, '<')
            chi = M.var('chi', (0.2, 0.8))
            if 'skew' in conf:
                M.assume(chi, '>', M.q(1, 100))
                M.assume(chi, '<', 1)
                WT.set_chi(chi)
            else:
                WT.set_chi(0)
            args += [WT.r, WT.gamma_t, WT.gamma_l]
            WTs.append(WT)
        pts = [(M.var('x%d' % i, (-2, 2)), M.var('y%d' % i, (-2, 2)), M.var('z%d' % i, (-4, 4))) for i in range(2)]
        X, Y, Z = build(M, pts, lay, sh)
        if farm and 'blank' in conf:     # one of the points is outside of the blanked regions
            M.assume(pts[1][2], '<', hub[2] - R)
        A = [X, Y, Z] + args
        B = [M.copy(a) for a in A]
        k = dict(longi='all' in conf, root='all' in conf, no_wake='blank' in conf, ground='ground' in conf)
        if farm:
            F = M.wiz.WindFarm.WindFarm(WTs)
            f = lambda X, Y, Z: F.velocity_field(X, Y, Z, U0=U0, **k)
        else:
            f = lambda X, Y, Z: WTs[0].compute_u(X, Y, Z, **k)
        u = f(X, Y, Z)
        same_args(M, 'argument', A, B)
        ref = [f(*[M.arr([c]) for c in q]) for q in pts]
        for c in range(3):
            M.shape('component %d' % c, u[c], sh)
            flat = u[c].reshape(-1)
            for i, j in enumerate(lay):
                M.eq('component %d point %d' % (c, i), flat[i], ref[j][c][0], scale=1e-9)
    return run


def solver(which):
    """arguments of the solver functions are left unchanged"""
    def run(M):
        S = M.wiz.Solver
        n = 2
        r = [M.pos('r0', (0.2, 0.5)), M.pos('dr', (0.2, 0.5))]
        r = [r[0], r[0] + r[1]]
        v = [M.pos('v%d' % i, (0.1, 0.4)) for i in range(n)]
        R, U0, Om = M.pos('extra', (0.1, 0.5)) + r[1], M.pos('U0'), M.pos('Om')
        ra, va = M.arr(r), M.arr(v)
        A, call = [ra, va], None
        if which.startswith('discr'):
            nB, sw = int(which[5]), which.endswith('s')
            k = [M.pos('k%d' % i, (0.05, 0.2)) for i in range(n)]
            for x in k:
                M.assume(nB * x, '<', M.q(3, 10))
            M.assume(k[0], '<', k[1])
            if sw:
                M.assume(Om * r[0], '>', 10 * U0)
            va = M.arr([x * M.pi * U0 * U0 / Om for x in k])
            rc = M.arr([r[0] + M.q(1, 100), R + r[1]])
            A = [ra, va, rc]
            B = [M.copy(a) for a in A]
            S.WakeVorticityFromCirculation_Discr(ra, va, R, U0, Om, nB, sw, **(dict(r_cyl=rc) if nB == 2 else {}))
            same_args(M, 'argument', A, B)
            return
        if which == 'cutoff':
            M.assume(r[1], '<=', 1)
            A = [ra]
            S.Ct_const_cutoff(M.var('CT'), M.q(2, 10), ra, M.q(9, 10))
        elif which == 'st':
            M.assume(v[0], '<', M.q(8, 10))
            M.assume(v[1], '<', M.q(8, 10))
            cq = M.arr([0 * x for x in v])
            A.append(cq)
            S.InductionsFromPrescribedCtCq_ST(ra, va, cq, M.pos('L', (4, 9)), True)
        elif which == 'cont':
            lr = M.arr([M.pos('l0', (2, 4)), M.pos('l1', (4, 6))])
            A.append(lr)
            for x in v:
                M.assume(x, '<', M.q(1, 2))
            M.assume(lr[0], '>', 1)
            M.assume(lr[1], '>', 1)
            S.InductionsFromCirculation_VC_Cont(ra, lr, va, bSwirl=False)
        elif which == 'wake_cont':
            for x in v:
                M.assume(x * Om, '<', U0 * U0)
            S.WakeVorticityFromCirculation_Cont(ra, va, R, U0, Om, False)
        else:
            g = M.wiz.Solver.WakeVorticityFromGamma if which == 'gamma' else M.wiz.Solver.WakeVorticityFromCt
            M.assume(Om * R, '>', 20 * U0)
            g(ra, va, R, U0, Om)
        B = [M.arr(r), M.arr(v)] if len(A) > 1 else [M.arr(r)]
        same_args(M, 'argument', A[:2], B)
    return run


def loading(n):
    def run(M):
        W = M.wiz.WindTurbine.WindTurbine
        R = M.pos('R')
        u = M.arr([M.pos('U' + c) for c in 'xyz'])
        WT = W(R=R, U0=u)
        r = M.arr([M.pos('r0', (0.1, 0.5)), M.pos('d', (0.1, 0.5))])
        r = M.arr([r[0], r[0] + r[1]])
        c = M.arr([M.pos('c%d' % i, (0.1, 0.8)) for i in range(2)])
        A = [r, c, u]
        B = [M.copy(a) for a in A]
        WT.update_loading(r=r, Ct=c, Lambda=M.pos('lam', (30, 60)) + 20, nCyl=n)
        same_args(M, 'argument', A, B)
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    el3 = []
    for el, pin in [(e, False) for e in registry()] + [(e, True) for e in cyl_polar_registry()]:
        k = ['any']
        if el.name in ('ring', 'ring_eps', 'vc', 'vc_eps', 'vcff', 'ring_polar', 'ring_saffman'):
            k = ['axis', 'rim', 'plane', 'edge'] if not el.name.startswith('ring_p') and el.name != 'ring_saffman' else ['axis', 'plane']
        elif el.name in ('cyl_finite',):
            k = ['axis', 'plane']
        elif el.name in ('longi',):
            k = ['axis', 'edge', 'plane']
        elif el.name in ('root_vl', 'root_vc'):
            k = ['axis', 'plane']
        elif el.name in ('sv_root', 'sv_tang', 'sv_longi', 'ss', 'dline_skew'):
            k = ['plane']
        elif el.name in ('doublet', 'dline', 'dline_polar', 'doublet_polar'):
            k = ['axis'] if el.name in ('dline', 'dline_polar') else []
        pairs = [('any', 'any')] + [('any', q) for q in k]
        if th:
            pairs += [(q, 'any') for q in k] + [(a, b) for a in k for b in k]
        else:
            pairs += [(k[i], k[i - 1]) for i in range(len(k))] if len(k) > 1 else []
        heavy = el.name in ('vcff', 'cyl_finite', 'dline_fin', 'vc_eps')
        pol = bool(el.polar) and el.name not in ('vcff', 'cyl_finite')
        for a, b in dict.fromkeys(pairs):
            if a == b == 'any' and heavy and not th:
                continue
            cs.append(Case('el_%s_%s_%s' % (el.name, a, b), elem(el, (a, b), pin, pol), 'two points', cost=el.cost, assume_defined=True))
        for s in ('mat', 'col', 'row'):
            if s == 'row' and heavy and not th:
                continue
            a, b = ('plane', 'plane') if el.name in ('vc_eps', 'vcff', 'cyl_finite', 'dline_fin') and not th else ('any', 'plane') if 'plane' in k else ('any', 'any')
            cs.append(Case('shape_%s_%s' % (el.name, s), elem(el, (a, b), pin, False, s), 'arrays of shape %s' % (SHAPES[s],), cost=el.cost, assume_defined=True))
        if not pin:
            for q in ([] if el.name == 'sv_root' else [False, True] if el.polar else [False]):
                cs.append(Case('empty_%s_%d' % (el.name, q), empty(el, pin, q), 'no control point', assume_defined=True))
        for q in ([False, True] if el.polar else [False]):
            cs.append(Case('whole_%s_%d' % (el.name, q), whole(el, pin, q), '%d integer points' % len(WHOLE), cost=el.cost, assume_defined=True))
    for cf in ('all', 'all_skew', 'all_multi', 'SS', 'blank', 'all_ground', 'all_moved'):
        cs.append(Case('whole_wt_' + cf, whole_settings(cf), '%d integer points' % len(WHOLE), overrides=lambda: stubs.elements(), assume_defined=True))
    for cf in ('all', 'blank'):
        cs.append(Case('whole_farm_' + cf, whole_settings(cf, True), '%d integer points' % len(WHOLE), overrides=lambda: stubs.elements(), assume_defined=True))
    for w in ('discr1', 'discr1s', 'cutoff', 'vps'):
        cs.append(Case('whole_args_' + w, whole_args(w), 'arrays of integers', assume_defined=True))
    for w, nm in (('rings', 'VortexRing.ring_u'), ('vcs_tang_u', 'VortexCylinder.vc_tang_u'), ('vcs_longi_u', 'VortexCylinder.vc_longi_u'),
                  ('svcs_tang_u', 'VortexCylinderSkewed.svc_tang_u'), ('svcs_longi_u', 'VortexCylinderSkewed.svc_longi_u')):
        cs.append(Case('whole_args_' + w, whole_args(w), 'arrays of integers', assume_defined=True, overrides=lambda nm=nm: stubs.elements([nm])))
    cs.append(Case('coll_rings', coll('rings', 'mat'), '2 rings', overrides=lambda: stubs.elements(['VortexRing.ring_u']), assume_defined=True))
    cs.append(Case('coll_rings_cart', coll('rings', 'col', polar=False), '2 rings', overrides=lambda: stubs.elements(['VortexRing.ring_u']), assume_defined=True))
    for w, nm in (('vcs_tang_u', 'VortexCylinder.vc_tang_u'), ('vcs_longi_u', 'VortexCylinder.vc_longi_u'), ('svcs_tang_u', 'VortexCylinderSkewed.svc_tang_u'),
                  ('svcs_longi_u', 'VortexCylinderSkewed.svc_longi_u')):
        for g in (False, True):
            cs.append(Case('coll_%s%s' % (w, '_ground' if g else ''), coll(w, 'col' if g else 'mat', g), '2 cylinders', overrides=lambda nm=nm: stubs.elements([nm]), assume_defined=True))
    for mo, od in ((0, 2), (1, 4), (2, 4)) if not th else ((0, 2), (1, 2), (1, 4), (1, 6), (1, 8), (2, 2), (2, 4), (2, 6), (2, 8), (2, 10)):
        cs.append(Case('vps_%d_%d' % (mo, od), vps(mo, od), '2 vortices, 2 points', assume_defined=True))
    for cf in ('all', 'all_skew', 'all_multi', 'all_skew_multi', 'blank', 'all_blank_skew', 'all_ground', 'all_ground_multi', 'all_blank_multi', 'SS', 'SS_blank', 'VCFF', 'VCFF_blank'):
        for s in ('mat',) if not th else ('vec', 'mat', 'col', 'row'):
            cs.append(Case('wt_%s_%s' % (cf, s), turb(cf, s), 'two points', cost=2, overrides=lambda: stubs.elements(), assume_defined=True))
    for cf in ('all', 'blank') + (('skew_blank',) if th else ()):
        cs.append(Case('farm_%s' % cf, turb(cf, 'mat', True), '2 turbines, two points', cost=2, overrides=lambda: stubs.elements(), assume_defined=True))
    for w in ('cutoff', 'st', 'cont', 'wake_cont', 'discr1s', 'discr1', 'discr2', 'discr2s', 'discr3s'):
        cs.append(Case('solver_' + w, solver(w), '2 stations', assume_defined=True))
    for w in ('gamma', 'ct'):
        cs.append(Case('solver_' + w, solver(w), '2 stations', assume_defined=True, overrides=lambda: {'Solver.WakeVorticityFromCirculation_Discr': stubs.discr()}))
    for n in (1, 2, None):
        cs.append(Case('loading_%s' % n, loading(n), '2 stations', assume_defined=True, overrides=lambda: {'Solver.WakeVorticityFromCirculation_Discr': stubs.discr()}))
    return cs
