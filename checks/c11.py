"""C11: rotation matrices, frame changes, orthogonal vectors and rotor disk points"""
from symwiz.harness import Case
from .common import unit3


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def axis(M, kind, sfx=''):
    if kind == 'any':
        return unit3(M, 'ex' + sfx, 'ey' + sfx)
    one = M.q(1)
    return {'x': (one, 0 * one, 0 * one), 'y': (0 * one, one, 0 * one), 'z': (0 * one, 0 * one, one)}[kind]


def mat(M, e, t, form='list'):
    a = list(e) if form == 'list' else M.arr(list(e), (3, 1)) if form == 'col' else M.arr(list(e))
    T = M.wiz.WindTurbine.RotMat_AxisAngle(a, t)
    M.shape('T', T, (3, 3))
    return T


def proper(kind, form='list'):
    def run(M):
        e, t = axis(M, kind), M.var('theta', (-3, 3))
        T = mat(M, e, t, form)
        rows = [[T[i, j] for j in range(3)] for i in range(3)]
        for i in range(3):
            for j in range(i, 3):
                M.eq('T T^t %d%d' % (i, j), dot(rows[i], rows[j]), M.q(1 if i == j else 0))
        M.eq('determinant', dot(rows[0], cross(rows[1], rows[2])), M.q(1))
        for i in range(3):
            M.eq('axis kept %d' % i, dot(rows[i], e), e[i])
        M.eq('trace', rows[0][0] + rows[1][1] + rows[2][2], 1 + 2 * M.np.cos(t))
    return run


def rodrigues(kind):
    """turns any vector by theta in the right-handed sense"""
    def run(M):
        e, t = axis(M, kind), M.var('theta', (-3, 3))
        T = mat(M, e, t)
        v = [M.var('v%d' % i) for i in range(3)]
        c, s, ev, xv = M.np.cos(t), M.np.sin(t), dot(e, v), cross(e, v)
        for i in range(3):
            M.eq('turned %d' % i, T[i, 0] * v[0] + T[i, 1] * v[1] + T[i, 2] * v[2], v[i] * c + xv[i] * s + e[i] * ev * (1 - c))
    return run


def compose(kind):
    def run(M):
        e, a, b = axis(M, kind), M.var('a', (-2, 2)), M.var('b', (-2, 2))
        A, B, C = mat(M, e, a), mat(M, e, b), mat(M, e, a + b)
        for i in range(3):
            for j in range(3):
                M.eq('%d%d' % (i, j), sum((A[i, k] * B[k, j] for k in range(1, 3)), A[i, 0] * B[0, j]), C[i, j])
        N = mat(M, e, -a)
        M.eq('inverse', N, A.T)
        M.eq('no rotation', mat(M, e, 0 * a), M.arr([1, 0, 0, 0, 1, 0, 0, 0, 1], (3, 3)) + 0 * a)
    return run


def there_and_back(rotation):
    def run(M):
        W = M.wiz.WindTurbine
        if rotation:
            e, t = axis(M, 'any'), M.var('theta', (-3, 3))
            T = mat(M, e, t)
        else:
            T = M.arr([M.var('T%d%d' % (i, j)) for i in range(3) for j in range(3)], (3, 3))
        v = [M.var('v%d' % i) for i in range(6)]
        X, Y, Z = M.arr(v[:2]), M.arr(v[2:4]), M.arr(v[4:])
        b = W.transform(T, X, Y, Z)
        a = W.transform_T(T, X, Y, Z)
        for k in range(2):
            p = (X[k], Y[k], Z[k])
            for i in range(3):
                M.eq('transform is T p %d' % i, b[i][k], T[i, 0] * p[0] + T[i, 1] * p[1] + T[i, 2] * p[2])
                M.eq('transform_T is T^t p %d' % i, a[i][k], T[0, i] * p[0] + T[1, i] * p[1] + T[2, i] * p[2])
        if rotation:
            for n, f, o in (('back', W.transform_T, b), ('forth', W.transform, a)):
                q = f(T, *o)
                for i, c in enumerate((X, Y, Z)):
                    M.eq('%s %d' % (n, i), q[i], c)
    return run


def orth(form):
    def run(M):
        u = [M.var('u%d' % i) for i in range(3)]
        M.assume(dot(u, u), '>', 0)
        a = M.arr(u, {'flat': (3,), 'col': (3, 1), 'row': (1, 3)}[form])
        v = M.wiz.WindTurbine.orth_vect(a)
        M.shape('v', v, (3, 1))
        w = [v[i, 0] for i in range(3)]
        M.eq('orthogonal', dot(w, u), 0 * u[0], scale=1)
        M.eq('unit', dot(w, w), M.q(1))
        M.eq('argument', a.reshape(3), M.arr(u))
    return run


CONV = {'y': ((0, 1, 0), (0, 0, 1)), 'z': ((0, 0, 1), (1, 0, 0)), 'z-': ((0, 0, 1), (-1, 0, 0)), 'x': ((1, 0, 0), (0, 1, 0))}


def turbine(M, conv):
    vert, shaft = CONV[conv][0], CONV[conv][1]
    if conv == 'z':
        c = M.between('hx', -1, 1, (-0.9, 0.9))
        s = M.root('hy', 1 - c * c)
        shaft = (c, s, 0 * c)
    h = [M.var('h' + n) for n in 'xyz']
    R = M.pos('R')
    WT = M.wiz.WindTurbine.WindTurbine(R=R, r_hub=M.arr(h), e_shaft_yaw0=M.arr([x + 0 * R for x in shaft]), e_vert=M.arr([x + 0 * R for x in vert]))
    return WT, R, h, shaft, vert


def shaft_after(M, shaft, vert, yaw):
    c, s = M.np.cos(yaw), M.np.sin(yaw)
    x = cross(vert, shaft)
    return [shaft[i] * c + x[i] * s for i in range(3)]


def yawed(conv):
    def run(M):
        WT, R, h, shaft, vert = turbine(M, conv)
        yaw = M.var('yaw', (-2, 2))
        y0 = M.var('yaw0', (-2, 2))
        WT.update_yaw_pos(y0)
        WT.update_yaw_pos(yaw)
        e = shaft_after(M, shaft, vert, yaw)
        M.shape('shaft', WT.e_shaft_g, (3, 1))
        M.eq('shaft', WT.e_shaft_g.reshape(3), M.arr(e))
        WT.update_yaw_pos(0 * yaw)
        M.eq('shaft at zero yaw', WT.e_shaft_g.reshape(3), M.arr([x + 0 * yaw for x in shaft]))
    return run


def disk(conv, n):
    def run(M):
        WT, R, h, shaft, vert = turbine(M, conv)
        e = shaft
        if conv != 'z':             # any heading, else any yaw
            yaw = M.var('yaw', (-2, 2))
            WT.update_yaw_pos(yaw)
            e = shaft_after(M, shaft, vert, yaw)
        p = WT.rotor_disk_points(n)
        M.shape('points', p, (3, n))
        d = [[p[i, k] - h[i] for i in range(3)] for k in range(n)]
        for k in range(n):
            M.eq('radius %d' % k, dot(d[k], d[k]), R * R)
            M.eq('plane %d' % k, dot(d[k], e), 0 * R, scale=[R])
        for k in range(n - 1):
            M.eq('spacing %d' % k, dot(d[k], d[k + 1]), R * R * M.np.cos(2 * M.pi / (n - 1)), scale=[R * R])
            x = cross(d[k], d[k + 1])
            M.eq('sense %d' % k, dot(x, e), R * R * M.np.sin(2 * M.pi / (n - 1)), scale=[R * R])
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for k in ('any', 'x', 'y', 'z'):
        cs += [Case('proper_' + k, proper(k), 'one axis and angle', cost=2), Case('rodrigues_' + k, rodrigues(k), 'one axis, angle, vector', cost=2),
               Case('compose_' + k, compose(k), 'one axis, two angles', cost=3)]
    cs += [Case('proper_col', proper('any', 'col'), 'axis of shape (3,1)', cost=2), Case('proper_flat', proper('any', 'flat'), 'axis array', cost=2)]
    cs += [Case('transform_matrix', there_and_back(False), 'any matrix, 2 points'), Case('transform_rotation', there_and_back(True), 'any rotation, 2 points', cost=4)]
    cs += [Case('orth_' + f, orth(f), 'one vector', cost=2) for f in ('flat', 'col', 'row')]
    for c in CONV:
        cs.append(Case('yaw_' + c, yawed(c), 'two yaw updates', cost=2))
        for n in ((2, 3, 4, 5, 7) if th else (3, 4)):
            cs.append(Case('disk%d_%s' % (n, c), disk(c, n), '%d points' % n, cost=4))
    return cs
