"""C25: loading updates of a turbine: which stations, which values, which solver inputs, replacement of the previous loading"""
from symwiz.harness import Case
from symwiz import stubs
from .c19 import kstar, minimiser, TOL


def same(M, label, a, b, **k):
    if a is None or b is None:
        M.true(label + ' both absent', a is None and b is None)
    else:
        M.eq(label, a, b, **k)


def turbine(M, swirl, lam=True):
    """turbine in any wind; tip-speed ratio on one side of 20"""
    R = M.pos('R', (1, 3))
    w = [M.var('U' + n, (1, 6)) for n in 'xyz']
    U2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2]
    M.assume(U2, '>', 0)
    k = {}
    L = None
    if lam:
        L = M.pos('Lambda', (4, 9) if swirl else (25, 60))
        M.assume(L, '<' if swirl else '>=', 20)
    WT = M.wiz.WindTurbine.WindTurbine(R=R, U0=M.arr(w), Lambda=L)
    return WT, R, w, M.np.sqrt(U2), L


def lin(M, x, xs, ys):
    """piecewise linear, constant beyond the ends"""
    if M.split(x, '<', xs[0]):
        return ys[0] + 0 * x
    for i in range(len(xs) - 1):
        if M.split(x, '<=', xs[i + 1]):
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1] + 0 * x


def dist(M, n, what='Ct', ordered=True):
    r, s = [], 0
    for i in range(n):
        s = s + M.pos('dr%d' % i, (0.2, 0.9))
        r.append(s)
    v = [M.var('%s%d' % (what, i), (0.2, 0.8)) for i in range(n)]
    return r, v


def stations(M, n, R):
    if n == 1:
        return [M.q('0.995') * R]
    return [(M.q('0.005') + M.q('0.99') * i / (n - 1)) * R for i in range(n)]


def expect(M, WT, rs, R, U, L, ct=None, gam=None, **k):
    S = M.wiz.Solver
    Om = L * U / R
    f, v = (S.WakeVorticityFromCt, ct) if ct is not None else (S.WakeVorticityFromGamma, gam)
    gt, gl, Gr, misc = f(M.arr(rs), M.arr(v), R, U, Om)
    same(M, 'stations', WT.r, M.arr(rs))
    same(M, 'gamma_t', WT.gamma_t, gt, **k)
    same(M, 'gamma_l', WT.gamma_l, gl, **k)
    same(M, 'Gamma_r', WT.Gamma_r, Gr, **k)
    if ct is not None:
        same(M, 'Ct', WT.Ct, M.arr(ct))


def one(n, what, swirl, form='array'):
    """one cylinder: mean of the values, 0.995 R"""
    def run(M):
        WT, R, w, U, L = turbine(M, swirl)
        r, v = dist(M, n, what)
        mean = sum(v[1:], v[0]) / n
        k = {}
        if what == 'Ct' and swirl:
            M.assume(mean, '>')
            M.assume(mean, '<', M.q(8, 10))
            minimiser(M, [kstar(M, mean, L * M.q('0.995'))])
            k = dict(fd=True, tol=2e-3, scale=1)
        val = v[0] if form == 'scalar' else list(v) if form == 'list' else M.arr(v)
        kw = {what: val}
        if form == 'array':
            kw['r'] = M.arr(r)
        if form == 'given':
            kw['nCyl'] = 1
        WT.update_loading(**kw)
        expect(M, WT, stations(M, 1, R), R, U, L, **{'ct' if what == 'Ct' else 'gam': [mean]}, **k)
        same(M, 'Lambda', WT.Lambda, L)
        if form == 'array':
            M.eq('values untouched', val, M.arr(v))
            M.eq('radii untouched', kw['r'], M.arr(r))
    return run


def multi(n, nc, what, swirl):
    """several cylinders: linear interpolation at equally spaced stations"""
    def run(M):
        WT, R, w, U, L = turbine(M, swirl)
        r, v = dist(M, n, what)
        a, b = M.arr(r), M.arr(v)
        WT.update_loading(r=a, nCyl=nc, **{what: b})
        rs = stations(M, nc, R)
        vs = [lin(M, x, r, v) for x in rs]
        expect(M, WT, rs, R, U, L, **{'ct' if what == 'Ct' else 'gam': vs})
        M.eq('values untouched', b, M.arr(v))
        M.eq('radii untouched', a, M.arr(r))
    return run


def given(n, what, swirl):
    """no cylinder count: stations as given"""
    def run(M):
        WT, R, w, U, L = turbine(M, swirl)
        r, v = dist(M, n, what)
        WT.update_loading(r=M.arr(r), nCyl=None, **{what: M.arr(v)})
        expect(M, WT, r, R, U, L, **{'ct' if what == 'Ct' else 'gam': v})
    return run


def user(nc):
    """user function of the thrust"""
    def run(M):
        WT, R, w, U, L = turbine(M, False)
        r, v = dist(M, 2)
        c, d = M.var('c', (-2, 2)), M.var('d', (-2, 2))
        f = lambda ct: c * ct * ct + d
        WT.update_loading(r=M.arr(r), Ct=M.arr(v), nCyl=nc, gamma_t_Ct=f)
        rs = r if nc is None else stations(M, nc, R)
        ct = v if nc is None else [(v[0] + v[1]) / 2] if nc == 1 else [lin(M, x, r, v) for x in rs]
        same(M, 'stations', WT.r, M.arr(rs))
        same(M, 'Ct', WT.Ct, M.arr(ct))
        same(M, 'gamma_t', WT.gamma_t, M.arr([f(x) for x in ct]))
        M.true('no longitudinal', WT.gamma_l is None and WT.Gamma_r is None)
    return run


def lam_in_call(kind):
    """tip-speed ratio: given in the call, stored, remembered, infinite"""
    def run(M):
        WT, R, w, U, L = turbine(M, False)
        g = M.var('Gamma', (0.2, 1))
        rs = stations(M, 1, R)
        L2 = M.pos('Lambda2', (4, 9))
        M.assume(L2, '<', 20)
        if kind == 'call':
            WT.update_loading(Gamma=g, Lambda=L2)
            expect(M, WT, rs, R, U, L2, gam=[g])
            same(M, 'Lambda', WT.Lambda, L2)
        elif kind == 'remembered':
            WT.update_loading(Gamma=g, Lambda=L2)
            WT.update_loading(Gamma=2 * g)
            expect(M, WT, rs, R, U, L2, gam=[2 * g])
        else:
            M.assume(40 * U, '<=', R)       # 800 rad/s then is a fast rotor
            inf = float('inf')
            W2 = M.wiz.WindTurbine.WindTurbine(R=R, U0=M.arr(w))
            WT.update_loading(Ct=g, Lambda=inf)
            W2.update_loading(Ct=g)
            S = M.wiz.Solver.WakeVorticityFromCt(M.arr(rs), M.arr([g]), R, U, 800)
            for W in (WT, W2):
                same(M, 'gamma_t', W.gamma_t, S[0])
                M.true('no swirl', W.gamma_l is None and W.Gamma_r is None)
                M.true('Lambda', W.Lambda == inf)
    return run


def wind_now(M):
    """the wind at the time of the update counts, not the one at construction"""
    WT, R, w, U, L = turbine(M, False)
    ct = M.var('Ct', (0.2, 0.8))
    v = [M.var('V' + n, (1, 6)) for n in 'xyz']
    V2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    M.assume(V2, '>', 0)
    WT.update_loading(Ct=ct)
    WT.update_wind(M.arr(v))
    WT.update_loading(Ct=ct)
    expect(M, WT, stations(M, 1, R), R, M.np.sqrt(V2), L, ct=[ct])


UPD = {
    'ct': lambda M, WT, x: WT.update_loading(Ct=x, Lambda=M.q(30)),
    'gamma_fast': lambda M, WT, x: WT.update_loading(Gamma=x, Lambda=M.q(30)),
    'gamma_swirl': lambda M, WT, x: WT.update_loading(Gamma=x, Lambda=M.q(6)),
    'gamma2': lambda M, WT, x: WT.update_loading(r=M.arr([M.q(1, 4), M.q(3, 4)]), Gamma=M.arr([x, x * x]), Lambda=M.q(6), nCyl=None),
    'user': lambda M, WT, x: WT.update_loading(Ct=x, Lambda=M.q(6), gamma_t_Ct=lambda c: -c),
}


def replaces(first, second):
    def run(M):
        R = M.pos('R', (1, 3))
        W = M.wiz.WindTurbine.WindTurbine
        x, y = M.var('x', (0.2, 0.8)), M.var('y', (0.2, 0.8))
        a, b = W(R=R, U0=[0, 0, 8]), W(R=R, U0=[0, 0, 8])
        UPD[first](M, a, x)
        UPD[second](M, a, y)
        UPD[second](M, b, y)
        for n in ('gamma_t', 'gamma_l', 'Gamma_r', 'r', 'Ct', 'Lambda'):
            same(M, n, getattr(a, n), getattr(b, n))
    return run


def refuse(M):
    WT, R, w, U, L = turbine(M, False)
    W0, _, _, _, _ = WT, R, w, U, L
    W2 = M.wiz.WindTurbine.WindTurbine(R=R, U0=M.arr(w), Lambda=None)
    g = M.var('g', (0.2, 0.8))
    M.raises('no loading', Exception, lambda: WT.update_loading())
    M.raises('no loading as given', Exception, lambda: WT.update_loading(r=M.arr([R]), nCyl=None))
    M.raises('function without thrust', Exception, lambda: WT.update_loading(gamma_t_Ct=lambda c: c))
    M.raises('function with circulation only', Exception, lambda: WT.update_loading(Gamma=g, gamma_t_Ct=lambda c: c))
    for k in (dict(Ct=g), dict(Gamma=g)):
        M.raises('no tip-speed ratio', Exception, lambda: W2.update_loading(**k))
    M.true('nothing set', WT.gamma_t is None and W2.gamma_t is None)


def cases(tier):
    th = tier == 'thorough'
    A = dict(assume_defined=True)
    B = dict(A, overrides=lambda: {'Solver.WakeVorticityFromCirculation_Discr': stubs.discr()})     # any wake solver
    cs = []
    for what in ('Ct', 'Gamma'):
        for n in (1, 2, 3):
            cs.append(Case('one%d_%s' % (n, what), one(n, what, False), '%d values, 1 cylinder' % n, **A))
        cs.append(Case('one_scalar_%s' % what, one(1, what, False, 'scalar'), 'scalar, 1 cylinder', **A))
        cs.append(Case('one_list_%s' % what, one(2, what, False, 'list'), 'list, 1 cylinder', **A))
        cs.append(Case('one_given_%s' % what, one(2, what, False, 'given'), 'nCyl=1', **A))
        cs.append(Case('one_swirl_%s' % what, one(2, what, True), '2 values, 1 cylinder, swirl', cost=3, **A))
        for n, nc in (((1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (2, 4)) if th else ((2, 2), (3, 2), (2, 3))):
            cs.append(Case('multi%d_%d_%s' % (n, nc, what), multi(n, nc, what, False), '%d values, %d cylinders' % (n, nc), cost=n * nc, **B))
        for n in (1, 2, 3):
            cs.append(Case('given%d_%s' % (n, what), given(n, what, False), '%d stations' % n, cost=n, **A))
    cs.append(Case('multi2_2_Gamma_swirl', multi(2, 2, 'Gamma', True), '2 values, 2 cylinders', cost=6, **B))
    cs.append(Case('given2_Gamma_swirl', given(2, 'Gamma', True), '2 stations', cost=3, **A))
    for nc in (1, 2, None):
        cs.append(Case('user_%s' % nc, user(nc), '2 values, %s cylinders' % nc, cost=2, **A))
    for k in ('call', 'remembered', 'infinite'):
        cs.append(Case('lambda_' + k, lam_in_call(k), 'two updates', cost=2, **A))
    cs.append(Case('wind_now', wind_now, 'two updates', cost=2, **A))
    for a in UPD:
        for b in UPD:
            if a != b or th:
                cs.append(Case('replaces_%s_%s' % (a, b), replaces(a, b), 'two updates', cost=2, **A))
    cs.append(Case('refuse', refuse, 'incomplete requests', **A))
    return cs
