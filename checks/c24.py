"""C24: position, heading and axes convention"""
from symwiz.harness import Case
from .turbine import T, points, cols, els, skew, dot, cross, contribution, CONV

PARTS = {'t': dict(), 'l': dict(tang=False, longi=True), 'r': dict(tang=False, root=True), 'all': dict(longi=True, root=True), 'ground': dict(ground=True, root=True), 'ground l': dict(ground=True, tang=False, longi=True),
         'blank': dict(no_wake=True), 'blank all': dict(no_wake=True, longi=True, root=True)}


def turned(v, vert, c, s):
    """v turned about the vertical"""
    x, h = cross(vert, v), dot(v, vert)
    return [v[i] * c + x[i] * s + vert[i] * h * (1 - c) for i in range(3)]


def prepare(M, conv, kind, ncyl, turned=True):
    yaw = M.var('yaw', (-0.6, 0.6)) if turned else None
    t = T(M, conv, yaw=yaw, ncyl=ncyl)
    if kind == 'auto':
        lat, vert, sh = t.axes()
        M.assume(dot(t.U0, sh), '>', M.q(1, 100))
    else:
        skew(M, t, kind)
    return t


def compare(M, u, v, f=lambda w: w):
    for j in range(u[0].shape[0]):
        a, b = [c[j] for c in u], f([c[j] for c in v])
        for i in range(3):
            M.eq('component %d point %d' % (i, j), a[i], b[i], scale=1e-9)


def moved(conv, kind, ncyl, part, how='new'):
    """hub and points moved by the same vector (with the ground: along the ground)"""
    def run(M):
        t = prepare(M, conv, kind, ncyl)
        p = points(M)
        d = [M.var('d' + c) for c in 'xyz']
        if 'ground' in part:
            h = dot(d, t.vert)
            d = [d[i] - h * t.vert[i] for i in range(3)]
        WT = t.make()
        k = PARTS[part]
        u = WT.compute_u(*cols(M, p), **k)
        t.hub = [t.hub[i] + d[i] for i in range(3)]
        if how == 'new':
            WT = t.make()
        else:
            WT.update_position(M.arr(t.hub))
        v = WT.compute_u(*cols(M, [[q[i] + d[i] for i in range(3)] for q in p]), **k)
        compare(M, v, u)
    return run


def headed(conv, kind, ncyl, part, how='yaw'):
    """everything turned about the vertical: by yawing or by another shaft direction at zero yaw"""
    def run(M):
        t = prepare(M, conv, kind, ncyl, turned=how != 'plain')
        p = points(M)
        if how == 'shaft':
            c = M.between('hc', -1, 1, (-0.9, 0.9))
            s = M.root('hs', 1 - c * c)
        else:
            b = M.var('turn', (-1, 1))
            c, s = M.np.cos(b), M.np.sin(b)
        WT = t.make()
        k = PARTS[part]
        u = WT.compute_u(*cols(M, p), **k)
        R = lambda v: turned(v, t.vert, c, s)
        t.hub, t.U0 = R(t.hub), R(t.U0)
        if how == 'shaft':
            t.shaft0 = tuple(R(t.shaft0))
        else:
            t.yaw = b if how == 'plain' else t.yaw + b
        WT = t.make()
        v = WT.compute_u(*cols(M, [R(q) for q in p]), **k)
        compare(M, v, u, R)
    return run


def convention(c1, c2, kind, ncyl, part):
    """the same turbine in other axes"""
    def run(M):
        t = prepare(M, c1, kind, ncyl)
        p = points(M)
        k = PARTS[part]
        u = t.make().compute_u(*cols(M, p), **k)
        A = (cross(*CONV[c1]),) + CONV[c1]
        B = (cross(*CONV[c2]),) + CONV[c2]

        def conv(v):
            q = [dot(v, e) for e in A]
            return [sum((B[k][i] * q[k] for k in (1, 2)), B[0][i] * q[0]) for i in range(3)]
        t.vert, t.shaft0 = CONV[c2]
        t.hub, t.U0 = conv(t.hub), conv(t.U0)
        v = t.make().compute_u(*cols(M, [conv(q) for q in p]), **k)
        compare(M, v, u, conv)
    return run


def full_turn(model, n, conv):
    """an aligned turbine stays aligned when its heading is counted one or more turns further"""
    def run(M):
        t = T(M, conv)
        y, U = M.var('heading', (-1, 1)), M.pos('U', (4, 9))
        M.assume(y, '>', M.q(-3, 2))
        M.assume(y, '<', M.q(3, 2))
        t.yaw = y
        sh = t.axes()[2]
        t.U0 = [U * c for c in sh]
        t.yaw = y + 2 * n * M.pi
        WT = t.make(Model=model)
        p = points(M)
        u = WT.compute_u(*cols(M, p))
        t.yaw = y
        t.chi = 0 * y
        v = t.make(Model=model).compute_u(*cols(M, p))
        compare(M, u, v)
    return run


def special(conv, part, where, n=30):
    """points of an aligned turbine's own rim, disk, cylinder surface or axis, whatever its heading: the velocity of the
    elements in the frame of the rotor, never nan. One heading in the encoding, n headings when a model is replayed."""
    def run(M):
        y, V, a0 = M.var('heading', (-1, 1)), M.pos('V', (4, 9)), M.var('a', (-3, 3))
        z = M.pos('z', (0.3, 2))
        r = M.between('rho', 0, 1, (0.2, 0.8))
        M.assume(r, '<', M.q(9, 10))
        M.assume(r, '>', M.q(1, 10))
        M.assume(z, '>', M.q(1, 100))
        t = T(M, conv, hub=[M.q(0)] * 3, yaw=y, U0=[M.q(0)] * 3)
        rho, zz = {'rim': (1, 0), 'disk': (r, 0), 'surface': (1, z), 'upstream surface': (1, -z), 'upstream axis': (0, -z)}[where]
        for i in M.repeats(n):
            t.yaw, a = y + M.q(37 * i, 100), a0 + M.q(23 * i, 100)
            lat, vert, sh = t.axes()
            t.U0 = [V * c for c in sh]
            WT = t.make()
            q = [t.R * rho * M.np.cos(a), t.R * rho * M.np.sin(a), t.R * zz]
            u = WT.compute_u(*cols(M, [t.back(q)]), only_ind=True, **PARTS[part])
            e = [M.q(0)] * 3
            for w in {'t': ('tang',), 'l': ('longi',), 'r': ('root',), 'all': ('tang', 'longi', 'root')}[part]:
                e = [b + c for b, c in zip(e, contribution(M, t, w, q, None))]
            e = t.back(e)
            for k in range(3):
                if not M.sym:
                    M.defined('component %d' % k, u[k][0])
                M.eq('component %d' % k, u[k][0], e[k], scale=1, tol=1e-4)
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    C = lambda n, f, b='one point', **k: cs.append(Case(n, f, b, **{**dict(overrides=els, assume_defined=True), **k}))
    for kind in ('straight', 'skew', 'auto', 'neg'):
        for ncyl in (1, 2):
            for part in PARTS:
                if not th and (kind == 'neg' and part != 'all' or part in ('l', 'r') and ncyl == 2 or part == 'blank' and kind != 'straight'
                               or part == 'blank all' and kind != 'skew' or part == 'ground l' and kind == 'auto'):
                    continue
                cv = ('y', 'z')[(ncyl + len(part)) % 2]
                for conv in (cv,) if not th else ('y', 'z', 'zy', 'x', 'z-'):
                    n = '%s%d_%s_%s' % (kind, ncyl, part.replace(' ', '_'), conv)
                    C('moved_' + n, moved(conv, kind, ncyl, part), cost=2)
                    if part == 'all' or th:
                        C('moved_update_' + n, moved(conv, kind, ncyl, part, 'update'), cost=2)
                    C('headed_' + n, headed(conv, kind, ncyl, part), cost=3)
                    if part == 'all' or th:
                        C('headed_shaft_' + n, headed(conv, kind, ncyl, part, 'shaft'), cost=3)
                        C('headed_plain_' + n, headed(conv, kind, ncyl, part, 'plain'), cost=3)
                for a, b in (('y', 'z'),) if not th else (('y', 'z'), ('y', 'zy'), ('y', 'x'), ('z', 'zy'), ('z-', 'y')):
                    C('axes_%s%s_%s%d_%s' % (a, b, kind, ncyl, part.replace(' ', '_')), convention(a, b, kind, ncyl, part), cost=2)
    for mo in ('VC', 'VCFF', 'SS'):
        for n in (0, 1, -1, 2):
            C('turns%d_%s' % (n, mo), full_turn(mo, n, ('y', 'z')[n % 2]))
    for i, w in enumerate(('rim', 'disk', 'surface', 'upstream surface', 'upstream axis')):
        for part in ('t', 'l', 'r', 'all'):
            if w == 'rim' and part in ('t', 'all'):
                continue        # singular
            for conv in ('y', 'z') if th else (('y', 'z')[i % 2],):
                C('%s_%s_%s' % (w.replace(' ', '_'), part, conv), special(conv, part, w, 500 if th else 30))
    for a, b in (('y', 'zy'), ('y', 'x'), ('z', 'z-')):
        for kind in ('straight', 'skew', 'auto'):
            n = 'axes_%s%s_%s1_all' % (a, b, kind)
            if n not in [c.name for c in cs]:
                C(n, convention(a, b, kind, 1, 'all'), cost=2)
    return cs
