"""C15: models of the induction"""
from symwiz.harness import Case
from .turbine import T, points, cols, els, skew, expected, contribution

MODELS = ('VC', 'VCFF', 'VD', 'SS')


def asked(model, how, conv, ground=False, total=False, far=None):
    """the velocity is that of the model of the call, else of the turbine"""
    def run(M):
        yaw = M.var('yaw', (-0.6, 0.6))
        t = T(M, conv, yaw=yaw)
        skew(M, t, 'straight')
        other = 'SS' if model != 'SS' else 'VD'
        WT = t.make(Model=model) if how == 'turbine' else t.make(Model=other) if how == 'call' else t.make()
        k = dict(Model=model) if how == 'call' else {}
        fv = 6
        if far:
            fv = M.var('far', (2, 8))
            M.assume(fv, '>')
            k['R_far_field'] = fv
        p = points(M, 2)
        X = cols(M, p)
        u = WT.compute_u(*X, only_ind=not total, ground=ground, **k)
        for j in range(2):
            e = expected(M, t, p[j], model=model, far=fv, hubs=[t.hub, t.mirrored()] if ground else None)
            for i in range(3):
                M.eq('component %d point %d' % (i, j), u[i][j], e[i] + t.U0[i] if total else e[i], scale=1e-9)
        if how == 'call':
            M.true('model of the turbine kept', WT.Model == other)
    return run


def with_root(model):
    """the root vortex is added to any model"""
    def run(M):
        t = T(M, 'y', yaw=M.var('yaw', (-0.6, 0.6)))
        skew(M, t, 'straight')
        WT = t.make(Model=model)
        p = points(M)[0]
        u = WT.compute_u(*cols(M, [p]), only_ind=True, root=True)
        e = expected(M, t, p, model=model, root=True)
        for i in range(3):
            M.eq('component %d' % i, u[i][0], e[i], scale=1e-9)
    return run


def far_field(side):
    """real elements: exact cylinder inside of the cut-off radius, doublet line outside, through the turbine"""
    def run(M):
        t = T(M, 'y')
        skew(M, t, 'straight')
        WT = t.make()
        p = points(M)[0]
        far = M.var('far', (2, 5))
        M.assume(far, '>=', 1)
        q = t.rotor(p)
        r = M.np.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]) / t.R
        M.assume(r, '<' if side == 'near' else '>', far)
        M.assume(t.R, '>', M.q(1, 10))
        M.assume(t.R, '<', 10)
        r2 = q[0] * q[0] + q[1] * q[1]
        M.assume((r2 - t.R * t.R) * (r2 - t.R * t.R), '>=', t.R ** 4 / M.q(10**4))
        if side == 'near':
            M.assume(r2, '>', t.R ** 2 / M.q(10**4))
        else:
            M.assume(q[1], '>', M.q(1, 100))
            M.assume(q[2] * q[2], '>', M.q(1, 100))
        X = cols(M, [p])
        u = WT.compute_u(*X, only_ind=True, Model='VCFF', R_far_field=far)
        v = WT.compute_u(*X, only_ind=True, Model='VC' if side == 'near' else 'VD')
        for i in range(3):
            M.eq('%d' % i, u[i], v[i], scale=1e-6)
    return run


def rejected(model, kind, ncyl, part, how, ground=False, no_wake=False):
    def run(M):
        t = T(M, 'y', ncyl=ncyl)
        if kind == 'auto':      # skewed by the wind
            d, U = M.var('dir', (0.2, 0.8)), M.pos('U', (4, 9))
            M.assume(d, '>', M.q(1, 10))
            M.assume(d, '<', 1)
            t.U0 = [U * M.np.sin(d), t.U0[1], U * M.np.cos(d)]
        else:
            skew(M, t, kind)
        WT = t.make(Model=model) if how == 'turbine' else t.make()
        k = dict(Model=model) if how == 'call' else {}
        X = cols(M, points(M))
        pk = dict(tang=part in ('tang', 'both'), longi=part in ('longi', 'both'))
        M.raises('not implemented', (Exception,), lambda: WT.compute_u(*X, ground=ground, no_wake=no_wake, **pk, **k))
    return run


def unloaded(model, kind):
    def run(M):
        t = T(M, 'y', load=False)
        skew(M, t, kind)
        WT = t.make(Model=model)
        X = cols(M, points(M))
        for k in (dict(), dict(tang=False), dict(longi=True, root=True), dict(tang=False, root=True), dict(only_ind=True), dict(ground=True), dict(no_wake=True)):
            M.raises('no loading %s' % k, (Exception,), lambda: WT.compute_u(*X, **k))
        W2 = M.wiz.WindFarm.WindFarm([WT])
        M.raises('no loading in a farm', (Exception,), lambda: W2.velocity_field(*X))
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    C = lambda n, f, b='two points', **k: cs.append(Case(n, f, b, **{**dict(overrides=els, assume_defined=True), **k}))
    for mo in MODELS:
        for how in ('call', 'turbine') + (('default',) if mo == 'VC' else ()):
            for conv in ('y', 'z') if not th else ('y', 'z', 'zy', 'x', 'z-'):
                C('asked_%s_%s_%s' % (mo, how, conv), asked(mo, how, conv))
                C('asked_total_%s_%s_%s' % (mo, how, conv), asked(mo, how, conv, True, True))
        C('root_%s' % mo, with_root(mo), 'one point')
    for how in ('call', 'turbine'):
        for g in (False, True):
            C('asked_far_%s_%d' % (how, g), asked('VCFF', how, 'y', g, far=True))
    for s in ('near', 'far'):
        C('field_' + s, far_field(s), 'one point', overrides=None, cost=4)
    for how in ('call', 'turbine'):
        for mo in ('VCFF', 'VD', 'SS', 'vc', 'XX', ''):
            un = mo not in MODELS
            for g in (False, True):
                if un:
                    C('unknown_%s_%s_%d' % (mo, how, g), rejected(mo, 'straight', 1, 'tang', how, g), 'one point')
                for kind in ('skew', 'neg', 'auto'):
                    C('skewed_%s_%s_%s_%d' % (kind, mo, how, g), rejected(mo, kind, 1, 'tang', how, g, no_wake=not g), 'one point')
                for ncyl in (2, 3):
                    for kind in ('straight', 'skew'):
                        for part in ('tang', 'longi', 'both'):
                            C('several_%s%d_%s_%s_%s_%d' % (kind, ncyl, mo, part, how, g), rejected(mo, kind, ncyl, part, how, g), 'one point')
                for kind in ('straight', 'skew'):
                    C('longi_%s_%s_%s_%d' % (kind, mo, how, g), rejected(mo, kind, 1, 'longi', how, g), 'one point')
                    C('both_%s_%s_%s_%d' % (kind, mo, how, g), rejected(mo, kind, 1, 'both', how, g), 'one point')
    for mo in MODELS:
        for kind in ('straight', 'skew'):
            C('unloaded_%s_%s' % (mo, kind), unloaded(mo, kind), 'one point')
    return cs
