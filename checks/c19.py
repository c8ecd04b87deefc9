"""C19: circulation found for a prescribed thrust.  The scalar minimiser of scipy is an environment stub: it may return any
point of its bounds at which the objective it was given is not larger than at the other points looked at, which include the
stations' own minimisers; the real minimiser is used in the replays."""
import symwiz.npshim as S
from symwiz.harness import Case

TOL = 2e-4


def kstar(M, ct, lr):
    """minimiser of |k(1+k/(4 lr^2)) - ct| over [0, 1.8]; zero where nothing has to be carried"""
    e = lr * lr
    top = M.q(9, 5)
    if M.split(top * (1 + top / (4 * e)), '<=', ct):
        return top
    return 2 * e * (M.np.sqrt(1 + ct / e) - 1)


def minimiser(M, cand):
    n = [0]

    def hook(f, *a, **k):
        b = k.get('bounds', a[0] if a else None)
        if b is None or k.get('method', 'bounded') != 'bounded':
            raise S.Unsupported('minimize_scalar without bounds')
        lo, hi = b
        n[0] += 1
        K = M.var('K%d' % n[0], (0, 1.8))
        M.assume(K, '>=', lo)
        M.assume(K, '<=', hi)
        fK = f(K)
        for c in cand:
            if M.split(c, '>=', lo) and M.split(c, '<=', hi):
                M.assume(fK, '<=', f(c))
        return K
    if M.sym:
        S.ScipyOptimize.hook = hook


def stations(M, n, sign=True):
    r = [M.pos('r%d' % i, (0.2, 1)) for i in range(n)]
    ct = [M.var('Ct%d' % i, (0.2, 1)) for i in range(n)]
    if sign:
        for c in ct:
            M.assume(c, '>')
    return r, ct


def swirl(n, big=False):
    def run(M):
        r, ct = stations(M, n)
        L = M.pos('Lambda', (2, 9))
        ks = [kstar(M, c, L * x) for c, x in zip(ct, r)]
        minimiser(M, ks)
        vk = M.wiz.Solver.CirculationFromPrescribedCt(M.arr(r), M.arr(ct), L, True)
        M.shape('k', vk, (n,))
        for i in range(n):
            M.eq('k%d' % i, vk[i], ks[i], fd=True, tol=TOL, scale=1)
            M.ge('range', vk[i], 0, tol=1e-4)
            M.le('range', vk[i], M.q(9, 5), tol=1e-4)
    return run


def thrust(M):
    """the circulation carries the thrust when the range allows it"""
    (r,), (ct,) = stations(M, 1)
    L = M.pos('Lambda', (2, 9))
    k = kstar(M, ct, L * r)
    M.assume(k, '<', M.q(9, 5))
    minimiser(M, [k])
    v = M.wiz.Solver.CirculationFromPrescribedCt(M.arr([r]), M.arr([ct]), L, True)[0]
    M.eq('Ct of k', v * (1 + v / (4 * (L * r) ** 2)), ct, fd=True, tol=TOL, scale=1)


def nothing(which):
    """stations without thrust or at the hub carry nothing, next to one that does"""
    def run(M):
        r, ct = stations(M, 2, sign=False)
        L = M.pos('Lambda', (2, 9))
        M.assume(ct[1], '>')
        if which == 'hub':
            r[0] = 0 * L
            M.assume(ct[0], '>')
        else:
            M.assume(ct[0], '<=')
        k = kstar(M, ct[1], L * r[1])
        minimiser(M, [k])
        for rev in (0, 1):
            o = slice(None, None, -1) if rev else slice(None)
            vk = M.wiz.Solver.CirculationFromPrescribedCt(M.arr(r[o]), M.arr(ct[o]), L, True)
            M.eq('none', vk[rev], 0 * L)
            M.eq('other', vk[1 - rev], k, fd=True, tol=TOL, scale=1)
    return run


def noswirl(M):
    r, ct = stations(M, 3, sign=False)
    L = M.pos('Lambda', (20, 90))
    vk = M.wiz.Solver.CirculationFromPrescribedCt(M.arr(r), M.arr(ct), L, False)
    M.eq('k=Ct', vk, M.arr(ct))


def untouched(sw):
    def run(M):
        r, ct = stations(M, 2)
        L = M.pos('Lambda', (2, 9))
        minimiser(M, [kstar(M, c, L * x) for c, x in zip(ct, r)])
        a, b = M.arr(r), M.arr(ct)
        M.wiz.Solver.CirculationFromPrescribedCt(a, b, L, sw)
        M.eq('radii unchanged', a, M.arr(r), exact=True)
        M.eq('thrust unchanged', b, M.arr(ct), exact=True)
    return run


def wake(n, sw, low=False):
    """vorticity from thrust: circulation k pi U0^2/Omega at that station, swirl below a tip-speed ratio of 20"""
    def run(M):
        U0, Om, R = M.pos('U0', (5, 9)), M.pos('Omega', (2, 5) if sw else (300, 500)), M.pos('R', (1, 3))
        r, s = [], 0
        for i in range(n):
            s = s + M.pos('dr%d' % i, (0.3, 1))
            r.append(s)
        ct = [M.var('Ct%d' % i, (0.2, 0.8)) for i in range(n)]
        for c in ct:
            M.assume(c, '>')
        L = Om * R / U0
        if low:                 # moderate thrust: below the critical thrust and the range of k
            for c, x in zip(ct, r):
                M.assume(c, '<', M.q(8, 10))
                M.assume(L * x, '>=', R)
        M.assume(Om * R, '<' if sw else '>=', 20 * U0)
        ks = [kstar(M, c, L * x / R) for c, x in zip(ct, r)] if sw else ct
        minimiser(M, ks)
        o = M.wiz.Solver.WakeVorticityFromCt(M.arr(r), M.arr(ct), R, U0, Om)
        G = [k * M.pi * U0 * U0 / Om for k in ks]
        M.eq('circulation', o[3]['Gamma_cp'], M.arr(G), fd=True, tol=TOL * 5)
        if sw:
            M.eq('root', o[2], -G[0], fd=True, tol=TOL * 5)
            M.true('longitudinal vorticity', o[1] is not None)
        else:
            M.true('no swirl', o[1] is None and o[2] is None)
            p = M.wiz.Solver.WakeVorticityFromCirculation_Discr(M.arr(r), M.arr(G), R, U0, Om, 1, False)
            M.eq('gamma_t', o[0], p[0])
    return run


def gamma(sw):
    def run(M):
        U0, Om, R = M.pos('U0', (5, 9)), M.pos('Omega', (2, 5) if sw else (300, 500)), M.pos('R', (1, 3))
        M.assume(Om * R, '<' if sw else '>=', 20 * U0)
        r0 = M.pos('r0', (0.2, 0.5))
        r = [r0, r0 + M.pos('dr', (0.2, 0.5))]
        G = [M.var('G%d' % i, (0.1, 2)) for i in range(2)]
        o = M.wiz.Solver.WakeVorticityFromGamma(M.arr(r), M.arr(G), R, U0, Om)
        M.eq('circulation', o[3]['Gamma_cp'], M.arr(G))
        if sw:
            M.eq('root', o[2], -G[0])
        else:
            M.true('no swirl', o[1] is None and o[2] is None)
    return run


def cases(tier):
    th = tier == 'thorough'
    A = dict(assume_defined=True)
    cs = [Case('swirl%d' % n, swirl(n), '%d stations' % n, cost=n * n, **A) for n in ((1, 2, 3) if th else (1, 2))]
    cs += [Case('thrust', thrust, '1 station', **A), Case('no_thrust', nothing('Ct'), '2 stations', cost=2, **A),
           Case('hub', nothing('hub'), '2 stations', cost=2, **A), Case('noswirl', noswirl, '3 stations', **A),
           Case('untouched_swirl', untouched(True), '2 stations', cost=2, **A), Case('untouched_noswirl', untouched(False), '2 stations', **A),
           Case('wake1_swirl', wake(1, True), '1 station', cost=2, **A),
           Case('wake2_noswirl', wake(2, False), '2 stations', cost=2, **A),
           Case('gamma_swirl', gamma(True), '2 stations', **A), Case('gamma_noswirl', gamma(False), '2 stations', **A)]
    if th:
        cs.append(Case('wake2_swirl', wake(2, True, True), '2 stations', cost=5, **A))
    return cs
