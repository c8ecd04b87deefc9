"""C16: wind farms, layouts and grids"""
import itertools
from symwiz.harness import Case
from .turbine import T, points, cols, els, skew, expected


def farm_of(M, n, kind='straight', conv='y', ncyl=1, models=None, same_place=False):
    ts, ms = [], []
    for k in range(n):
        t = T(M, conv, sfx='_%d' % k, yaw=M.var('yaw_%d' % k, (-0.6, 0.6)), ncyl=ncyl)
        if kind == 'straight':
            t.chi, m = 0 * M.q(1), None
        else:
            t.chi = M.var('chi_%d' % k, (0.2, 0.8))
            M.assume(t.chi, '>', M.q(1, 100))
            M.assume(t.chi, '<', 1)
            m = M.np.tan(t.chi)
        ts.append(t)
        ms.append(m)
    WTs = [t.make(Model=models[i] if models else 'VC') for i, t in enumerate(ts)]
    return ts, ms, WTs


def add(a, b):
    return b if a is None else [x + y for x, y in zip(a, b)]


def total(n, kind, ncyl=1, U=True, conv='y', how='constructor', order=None, models=None, ground=False, call_model=None, far=None, longi=False, root=False, tang=True, aslist=False):
    def run(M):
        ts, ms, WTs = farm_of(M, n, kind, conv, ncyl, models)
        od = order or range(n)
        if how == 'constructor':
            F = M.wiz.WindFarm.WindFarm([WTs[i] for i in od])
        else:
            F = M.wiz.WindFarm.WindFarm()
            for i in od:
                F.append(WTs[i])
        M.true('number of turbines', F.nWT == n and len(F) == n)
        p = points(M, 2)
        X = cols(M, p) if not aslist else [[q[i] for q in p] for i in range(3)]
        U0 = [M.var('W' + c, (1, 5)) for c in 'xyz']
        k = dict(longi=longi, root=root, tang=tang, ground=ground)
        ck = dict(k)
        if call_model:
            ck['Model'] = call_model
        if far:
            far_v = M.var('far', (2, 7))
            ck['R_far_field'] = far_v
        if U == 'array':
            ck['U0'] = M.arr(U0)
        elif U:
            ck['U0'] = U0
        u = F.velocity_field(*X, **ck)
        for j in range(2):
            tot = None
            for i, t in enumerate(ts):
                tot = add(tot, expected(M, t, p[j], ms[i], tang=tang, longi=longi, root=root, model=call_model or (models[i] if models else 'VC'), far=far_v if far else 6,
                                        hubs=[t.hub, t.mirrored()] if ground else None))
            for i in range(3):
                e = tot[i] if tot else M.q(0)
                M.eq('component %d point %d' % (i, j), u[i][j], e + U0[i] if U else e, scale=1e-9)
    return run


def blanked(n, kind, kw):
    """each turbine blanks its own wake only"""
    def run(M):
        ts, ms, WTs = farm_of(M, n, kind)
        for t, W in zip(ts, WTs):
            W.update_yaw_pos(0 * t.R)
            t.yaw = None
        p = points(M)
        X = cols(M, p)
        F = M.wiz.WindFarm.WindFarm(WTs)
        u = F.velocity_field(*X, no_wake=True, **kw)
        v = F.velocity_field(*X, no_wake=False, **kw)
        d = F.velocity_field(*X, **kw)
        e = [W.compute_u(*X, no_wake=True, only_ind=True, **kw) for W in WTs]
        f = [W.compute_u(*X, only_ind=True, **kw) for W in WTs]
        for i in range(3):
            M.eq('%d' % i, u[i], sum((x[i] for x in e[1:]), e[0][i]), scale=1e-9)
            M.eq('not blanked %d' % i, v[i], sum((x[i] for x in f[1:]), f[0][i]), scale=1e-9)
            M.eq('default %d' % i, d[i], v[i], scale=1e-9)
    return run


def plain(M, n):
    ts = [T(M, 'y', sfx='_%d' % k, load=False) for k in range(n)]
    return ts, [t.make() for t in ts]


def layout(n, form):
    def run(M):
        ts, WTs = plain(M, n)
        F = M.wiz.WindFarm.WindFarm(WTs)
        L = F.layout
        M.shape('layout', L, (n, 3))
        for k in range(n):
            for i in range(3):
                M.eq('layout of the turbines %d %d' % (k, i), L[k, i], ts[k].hub[i])
        new = [[M.var('n%s%d' % (c, k)) for c in 'xyz'] for k in range(n)]
        F.layout = M.arr([x for r in new for x in r], (n, 3)) if form == 'array' else new
        L2 = F.layout
        M.shape('new layout', L2, (n, 3))
        for k in range(n):
            M.shape('position', WTs[k].r_hub, (3, 1))
            M.true('same turbine', F[k] is WTs[k])
            for i in range(3):
                M.eq('read back %d %d' % (k, i), L2[k, i], new[k][i])
                M.eq('moved %d %d' % (k, i), WTs[k].r_hub.reshape(3)[i], new[k][i])
                M.eq('other settings %d %d' % (k, i), WTs[k].U0_g.reshape(3)[i], ts[k].U0[i])
    return run


def bad_layout(n, shape):
    def run(M):
        ts, WTs = plain(M, n)
        F = M.wiz.WindFarm.WindFarm(WTs)
        k = 1
        for s in shape:
            k *= s
        L = M.arr([M.var('b%d' % i) for i in range(k)], shape)

        def f():
            F.layout = L
        M.raises('wrong shape', (Exception,), f)
        M.true('number of turbines', F.nWT == n)
        for k in range(n):
            for i in range(3):
                M.eq('unchanged %d %d' % (k, i), F.layout[k, i], ts[k].hub[i])
    return run


class Lookalike:
    def __init__(self):
        self.r_hub = [0, 0, 0]

    def compute_u(self, X, Y, Z, **k):
        return X, Y, Z


def not_a_turbine(n):
    def run(M):
        ts, WTs = plain(M, n)
        F = M.wiz.WindFarm.WindFarm(WTs, name='f')
        for i, o in enumerate((None, 1, 'turbine', [], WTs[:1], (), {}, Lookalike(), M.wiz.WindTurbine.WindTurbine, F, M.arr([M.q(1)]))):
            M.raises('object %d' % i, (Exception,), lambda: F.append(o))
            M.true('unchanged %d' % i, F.nWT == n and len(F) == n and all(a is b for a, b in zip(F, WTs)))
        t = T(M, 'y', sfx='_n', load=False)
        W = t.make()
        F.append(W)
        M.true('appended', F.nWT == n + 1 and F[n] is W)
        for i in range(3):
            M.eq('layout %d' % i, F.layout[n, i], t.hub[i])
        G = M.wiz.WindFarm.WindFarm()
        M.true('a new farm is empty', G.nWT == 0)
    return run


def grid(nx, nz, mirror, equal):
    def run(M):
        W = M.wiz.WindFarm
        sx, sz, h = M.var('sx', (1, 3)), M.var('sz', (1, 3)), M.var('hub', (0.5, 2))
        x, y, z = W.gridLayout(nx, sx, nz, None if equal else sz, hub_height=h, mirror=mirror)
        sz = sx if equal else sz
        n = nx * nz * (2 if mirror else 1)
        for c in (x, y, z):
            M.shape('size', c, (n,))
        k = 0
        for s in (1, -1) if mirror else (1,):
            for i in range(nz):
                for j in range(nx):
                    M.eq('x %d' % k, x[k], (j - nx // 2) * sx, scale=1e-9)
                    M.eq('y %d' % k, y[k], s * h, scale=1e-9)
                    M.eq('z %d' % k, z[k], i * sz, scale=1e-9)
                    k += 1
    return run


def grid_defaults(nx, nz):
    def run(M):
        sx = M.var('sx', (1, 3))
        x, y, z = M.wiz.WindFarm.gridLayout(nx, sx, nz)
        M.shape('size', x, (nx * nz,))
        for k in range(nx * nz):
            M.eq('y %d' % k, y[k], 0 * sx, scale=1e-9)
            M.eq('x %d' % k, x[k], (k % nx - nx // 2) * sx, scale=1e-9)
            M.eq('z %d' % k, z[k], (k // nx) * sx, scale=1e-9)
    return run


def ctgrid(nx, nz, mirror, hub):
    def run(M):
        W = M.wiz.WindFarm
        sx, sz, R, U0 = M.var('sx', (1, 3)), M.var('sz', (1, 3)), M.pos('R', (0.5, 1)), M.pos('U', (2, 6))
        CT = M.var('CT', (0.2, 0.9))
        M.assume(CT, '<', 1)
        M.assume(CT, '>', 0)
        h = M.var('hub', (0.5, 2)) if hub else 0 * R
        p = points(M, 2)
        X = cols(M, p)
        k = dict(mirror=mirror) if mirror else {}
        if hub:
            k['hub_height'] = h
        u = W.windfarm_gridlayout_CTconst(*X, R, CT, U0, nx, sx, nz, sz, **k)
        g = -U0 * (1 - M.np.sqrt(1 - CT))
        tot = None
        for s in (1, -1) if mirror else (1,):
            for i in range(nz):
                for j in range(nx):
                    e = M.wiz.VortexCylinder.vc_tang_u(X[0] - (j - nx // 2) * sx, X[1] - s * h, X[2] - i * sz, gamma_t=g, R=R, polar_out=False)
                    tot = add(tot, e)
        for i in range(3):
            M.eq('%d' % i, u[i], tot[i], scale=1e-9)
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    C = lambda n, f, b='two points', **k: cs.append(Case(n, f, b, **{**dict(overrides=els, assume_defined=True), **k}))
    for n in (0, 1, 2, 3) if not th else (0, 1, 2, 3, 4, 5):
        for kind in ('straight', 'skew'):
            for U in (True, False, 'array'):
                C('sum%d_%s_%s' % (n, kind, U), total(n, kind, U=U), '%d turbines, two points' % n)
    for kind in ('straight', 'skew'):
        for od in itertools.permutations(range(3)):
            C('order_%s_%s' % (kind, ''.join(map(str, od))), total(3, kind, order=od, how='append', U=od[0] == 1))
        for ncyl in (2, 3):
            C('cylinders%d_%s' % (ncyl, kind), total(2, kind, ncyl=ncyl))
        for fl in itertools.product((False, True), repeat=3):
            C('parts_%s_%d%d%d' % ((kind,) + fl), total(2, kind, tang=fl[0], longi=fl[1], root=fl[2], U=fl[0]))
        C('ground_%s' % kind, total(2, kind, ground=True))
        C('axes_%s' % kind, total(2, kind, conv='z', longi=True))
        for bk in (dict(), dict(longi=True, root=True), dict(ground=True)):
            if bk and not th and kind == 'skew':
                continue
            C('blanked_%s_%s' % (kind, '_'.join(bk)), blanked(2, kind, bk), '2 turbines, one point', cost=3)
    C('lists', total(2, 'straight', aslist=True, longi=True))
    for mo in ('VCFF', 'VD', 'SS', 'VC'):
        C('model_call_' + mo, total(2, 'straight', call_model=mo))
        C('model_call_ground_' + mo, total(2, 'straight', call_model=mo, ground=True, U=False))
    C('far', total(2, 'straight', call_model='VCFF', far=True))
    for ms in (('VC', 'SS'), ('VD', 'VC'), ('VCFF', 'SS'), ('SS', 'VD')):
        C('models_%s_%s' % ms, total(2, 'straight', models=ms, root=True))
    for n in (1, 2, 3) if not th else (1, 2, 3, 4, 6):
        for f in ('array', 'list'):
            C('layout%d_%s' % (n, f), layout(n, f), '%d turbines' % n, overrides=None)
        for s in dict.fromkeys(((n + 1, 3), (n, 2), (n, 4), (3 * n,), (n, 3, 1), (1, n, 3)) + (((n - 1, 3), (3, n) if n != 3 else (9,), (1, 3)) if n > 1 else ((3,), (3, 1)))):
            C('bad_layout%d_%s' % (n, 'x'.join(map(str, s))), bad_layout(n, s), '%d turbines' % n, overrides=None)
    for n in (0, 1, 2):
        C('append%d' % n, not_a_turbine(n), '%d turbines' % n, overrides=None)
    rng = (1, 2, 3, 4, 5) if not th else tuple(range(1, 9))
    for nx in rng:
        for nz in (1, 2, 3) if not th else (1, 2, 3, 4, 5):
            for mi in (False, True):
                C('grid_%dx%d_%d' % (nx, nz, mi), grid(nx, nz, mi, (nx + nz) % 2 == 0), 'grid %dx%d' % (nx, nz), overrides=None)
            C('grid_defaults_%dx%d' % (nx, nz), grid_defaults(nx, nz), 'grid %dx%d' % (nx, nz), overrides=None)
    for nx, nz in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3)) if not th else itertools.product((1, 2, 3, 4), (1, 2, 3)):
        for mi in (False, True):
            for hub in (False, True):
                C('ct_%dx%d_%d_%d' % (nx, nz, mi, hub), ctgrid(nx, nz, mi, hub), 'grid %dx%d, two points' % (nx, nz))
    return cs
