"""C13: ground effect"""
from symwiz.harness import Case
from symwiz import stubs
from symwiz.expr import lift
from symwiz import npshim as S
from .turbine import T, points, cols, els, skew, expected, dot
import numpy as np

PARTS = {'tang': dict(tang=True), 'longi': dict(tang=False, longi=True), 'root': dict(tang=False, root=True), 'all': dict(tang=True, longi=True, root=True)}


def image(conv, kind, ncyl, part, how='call', no_wake=False, only_ind=True, model='VC'):
    """with ground: turbine and mirrored turbine"""
    def run(M):
        yaw = M.var('yaw', (-0.6, 0.6))
        t = T(M, conv, yaw=yaw, ncyl=ncyl)
        m = skew(M, t, kind)
        p = points(M, 2)
        X = cols(M, p)
        k = dict(PARTS[part])
        WT = t.make(Model=model, Ground=how == 'setting') if how != 'call' else t.make(Model=model)
        g = {} if how == 'setting' else dict(ground=True)
        u = WT.compute_u(*X, only_ind=only_ind, **g, **k)
        for j in range(2):
            e = expected(M, t, p[j], m, model=model, hubs=[t.hub, t.mirrored()], **{**dict(tang=False), **k})
            for i in range(3):
                M.eq('component %d point %d' % (i, j), u[i][j], e[i] if only_ind else e[i] + t.U0[i], scale=1e-9)
    return run


def twin(conv, kind, ncyl, part):
    """real turbines only: with ground = without + turbine moved below the ground"""
    def run(M):
        yaw = M.var('yaw', (-0.6, 0.6))
        t = T(M, conv, yaw=yaw, ncyl=ncyl)
        skew(M, t, kind)
        X = cols(M, points(M, 2))
        k = PARTS[part]
        WT = t.make()
        u = WT.compute_u(*X, ground=True, **k)
        a = WT.compute_u(*X, ground=False, **k)
        WT.update_position(M.arr(t.mirrored()))
        b = WT.compute_u(*X, ground=False, only_ind=True, **k)
        for i in range(3):
            M.eq('%d' % i, u[i], a[i] + b[i], scale=1e-9)
    return run


def choice(kind, ncyl):
    """the choice of the call decides, else the setting; without there is no image; hub on the ground: twice"""
    def run(M):
        t = T(M, 'y', ncyl=ncyl)
        m = skew(M, t, kind)
        p = points(M)
        X = cols(M, p)
        on, off = t.make(Ground=True), t.make()
        f = lambda W, **k: W.compute_u(*X, only_ind=True, root=True, **k)
        e = expected(M, t, p[0], m, root=True)
        for i in range(3):
            M.eq('setting off %d' % i, f(off)[i][0], e[i], scale=1e-9)
            M.eq('call off %d' % i, f(on, ground=False)[i][0], e[i], scale=1e-9)
            M.eq('call on %d' % i, f(off, ground=True)[i], f(on)[i], scale=1e-9)
            M.eq('both on %d' % i, f(on, ground=True)[i], f(on)[i], scale=1e-9)
        M.true('settings kept', on.Ground is True and off.Ground is False)
        h = [t.hub[0], 0 * t.hub[1], t.hub[2]]
        off.update_position(M.arr(h))
        a, b = f(off), f(off, ground=True)
        for i in range(3):
            M.eq('hub on the ground %d' % i, b[i], 2 * a[i], scale=1e-9)
    return run


# ------------------------------------------------------------------ no flow through the ground
def mirrored_stub(name):
    """any element function whose field is mirror symmetric about y=0 (shown for the real ones in C06 and C10)"""
    base = stubs.stub(name)
    names = stubs.SIG[name][0]

    def f(*a, **kw):
        v = dict(zip(names, a))
        v.update(kw)
        y = S.asarray(v[names[1]])
        v[names[1]] = y * y
        u = base(**v)
        return u[0], u[1] * y, u[2]
    return f


def sym_els():
    return {n: mirrored_stub(n) for n in ('VortexCylinder.vc_tang_u', 'VortexCylinderSkewed.svc_tang_u')}


def sealed(conv, kind, ncyl, how='call'):
    def run(M):
        yaw = M.var('yaw', (-0.6, 0.6))
        t = T(M, conv, yaw=yaw, ncyl=ncyl)
        skew(M, t, kind)
        WT = t.make(Ground=how == 'setting')
        p = points(M)[0]
        h = dot(p, t.vert)
        p = [p[i] - h * t.vert[i] for i in range(3)]
        u = WT.compute_u(*cols(M, [p]), only_ind=True, **(dict(ground=True) if how == 'call' else {}))
        M.eq('vertical velocity', dot([c[0] for c in u], t.vert), 0 * t.R, scale=[max(abs(float(c[0])) for c in u)] if not M.sym else None)
    return run


def sealed_real(conv, ncyl, kind='straight'):
    """the same with the real cylinders (straight)"""
    def run(M):
        t = T(M, conv, ncyl=ncyl)
        skew(M, t, kind)
        WT = t.make()
        p = points(M)[0]
        h = dot(p, t.vert)
        p = [p[i] - h * t.vert[i] for i in range(3)]
        M.assume(dot(t.hub, t.vert), '>', M.q(1, 10))
        u = WT.compute_u(*cols(M, [p]), only_ind=True, ground=True)
        M.eq('vertical velocity', dot([c[0] for c in u], t.vert), 0 * t.R, scale=[max(abs(float(c[0])) for c in u)] if not M.sym else None)
    return run


def multi(which):
    """several turbines over the ground, straight or skewed cylinders: every one has its own image"""
    tang, sk = 'tang' in which, which.startswith('s')

    def run(M):
        V = M.wiz.VortexCylinderSkewed if sk else M.wiz.VortexCylinder
        n, nr = 2, 2
        g = [[M.var('g%d%d' % (i, j), (-2, -0.5)) for j in range(nr)] for i in range(n)]
        R = [[M.pos('R%d%d' % (i, j), (0.5, 2)) for j in range(nr)] for i in range(n)]
        c = [[M.var('%s%d' % (a, i), (-2, 2)) for a in ('xc', 'yc', 'zc')] for i in range(n)]
        for i in range(n):
            for j in range(nr):
                M.assume(g[i][j], '<')
        m = [[M.var('m%d%d' % (i, j), (0.1, 0.8)) for j in range(nr)] for i in range(n)]
        p = points(M)[0]
        X = cols(M, [p])
        a = lambda v: M.arr([x for r in v for x in r], (n, nr))
        k = dict(Xcyl=M.arr([x[0] for x in c]), Ycyl=M.arr([x[1] for x in c]), Zcyl=M.arr([x[2] for x in c]))
        args = [a(g), a(R)] + ([a(m)] if sk else [])
        f = getattr(V, which)
        u = f(*X, *args, Ground=True, **k)
        v = f(*X, *args, **k)
        k['Ycyl'] = -k['Ycyl']
        w = f(*X, *args, **k)
        for i in range(3):
            M.eq('%d' % i, u[i], v[i] + w[i], scale=1e-9)
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    C = lambda n, f, b='two points', **k: cs.append(Case(n, f, b, **{**dict(overrides=els, assume_defined=True), **k}))
    kinds = ('straight', 'skew', 'neg')
    convs = ('y', 'z', 'zy', 'x') if th else ('y', 'z')
    for kind in kinds:
        for ncyl in (1, 2, 3) if th else (1, 2):
            for part in PARTS:
                if ncyl > 1 and kind == 'straight' and part in ('longi', 'all'):
                    continue        # documented as not implemented
                for conv in convs:
                    if kind == 'neg' and not th and (part != 'tang' or conv == 'z'):
                        continue
                    C('image_%s%d_%s_%s' % (kind, ncyl, part, conv), image(conv, kind, ncyl, part))
                    if part in ('tang', 'all') and conv == 'y' or th:
                        C('image_setting_%s%d_%s_%s' % (kind, ncyl, part, conv), image(conv, kind, ncyl, part, 'setting', only_ind=False))
                    C('twin_%s%d_%s_%s' % (kind, ncyl, part, conv), twin(conv, kind, ncyl, part))
            C('choice_%s%d' % (kind, ncyl), choice(kind, ncyl), 'one point')
            for conv in convs:
                C('sealed_%s%d_%s' % (kind, ncyl, conv), sealed(conv, kind, ncyl), 'one point of the ground', overrides=sym_els)
                C('sealed_setting_%s%d_%s' % (kind, ncyl, conv), sealed(conv, kind, ncyl, 'setting'), 'one point of the ground', overrides=sym_els)
    for m in ('VCFF', 'VD', 'SS'):
        C('image_%s' % m, image('y', 'straight', 1, 'tang', model=m))
        C('image_setting_%s' % m, image('z', 'straight', 1, 'tang', 'setting', model=m, only_ind=False))
    for conv in convs:
        C('sealed_real_%s' % conv, sealed_real(conv, 1), 'one point of the ground', overrides=None, cost=2)
    if th:
        C('sealed_real2', sealed_real('y', 2), 'one point of the ground', overrides=None, cost=4)
    for w in ('vcs_tang_u', 'svcs_tang_u', 'svcs_longi_u'):
        C('multi_' + w, multi(w), '2 turbines of 2 cylinders, one point')
    return cs
