"""C18: thrust distribution with root and tip cut-off: piecewise linear shape, bounds, sign, continuity (compared with the
piecewise definition at symbolic radii; continuity through a Lipschitz bound between any two radii)"""
from symwiz.harness import Case


def ref(M, v, C, c, t):
    if M.split(v, '<', c):
        return C * v / c
    if t is not None and M.split(v, '>', t):
        return C * (1 - v) / (1 - t)
    return C + 0 * v


def setup(M, n, tip):
    C, c = M.var('CT0', (0.2, 1)), M.between('cut', 0, 1, (0.05, 0.3))
    M.assume(c, '>', 0)
    M.assume(c, '<', 1)
    t = None
    if tip:
        t = M.between('tip', 0, 1, (0.5, 0.9))
        M.assume(t, '>=', c)
        M.assume(t, '<', 1)
    r = [M.between('r%d' % i, 0, 1, (0, 1)) for i in range(n)]
    return C, c, t, r


def call(M, C, c, r, t, pos=None, shape=None):
    f = M.wiz.Solver.Ct_const_cutoff
    a = M.arr(r, shape)
    if t is None:
        return f(C, c, a)
    return f(C, c, a, t) if pos else f(C, c, a, r_bar_tip=t)


def values(n, tip, shape=None):
    def run(M):
        C, c, t, r = setup(M, n, tip)
        u = call(M, C, c, r, t, pos=n == 1, shape=shape)
        M.shape('Ct', u, shape or (n,))
        M.eq('Ct', u.reshape(n), M.arr([ref(M, v, C, c, t) for v in r]))
    return run


def bounds(tip):
    def run(M):
        C, c, t, r = setup(M, 2, tip)
        u = call(M, C, c, r, t)
        for v in u:
            M.ge('sign', v * C, 0)
            M.ge('bound', (C - v) * C, 0)
    return run


def lipschitz(tip):
    def run(M):
        C, c, t, r = setup(M, 2, tip)
        u = call(M, C, c, r, t)
        k = 1 / c if t is None else 1 / c + 1 / (1 - t)
        d, dr = (u[0] - u[1]), r[0] - r[1]
        M.le('continuous', d * d, C * C * k * k * dr * dr)
    return run


def ends(M):
    C, c, t, _ = setup(M, 0, True)
    u = call(M, C, c, [0 * C, c, t, 0 * C + 1], t)
    M.eq('hub, cut-off, tip cut-off, tip', u, M.arr([0 * C, C, C, 0 * C]))
    v = call(M, C, c, [0 * C, c, 0 * C + 1], None)
    M.eq('no tip: hub, cut-off, tip', v, M.arr([0 * C, C, C]))


def untouched(M):
    C, c, t, r = setup(M, 2, True)
    a = M.arr(r)
    b = M.copy(a)
    M.wiz.Solver.Ct_const_cutoff(C, c, a, t)
    M.eq('radii unchanged', a, b, exact=True)


def cases(tier):
    th = tier == 'thorough'
    cs = [Case('ends', ends, 'the four corner radii')]
    for tip in (0, 1):
        cs.append(Case('values1_tip%d' % tip, values(1, tip), '1 station'))
        cs.append(Case('values3_tip%d' % tip, values(3, tip), '3 stations in any order', cost=3))
        cs.append(Case('bounds_tip%d' % tip, bounds(tip), '2 stations', cost=2))
        cs.append(Case('continuity_tip%d' % tip, lipschitz(tip), '2 stations', cost=2))
        cs.append(Case('shape_tip%d' % tip, values(2, tip, (1, 2)), 'shape (1,2)', cost=2))
    cs.append(Case('untouched', untouched, '2 stations'))
    if th:
        cs.append(Case('values5', values(5, 1), '5 stations', cost=6))
    return cs
