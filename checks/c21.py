"""C21: the complete elliptic integral of the third kind (Carlson's duplication), for every m<1 and n<1

The routine is executed with the changes of its estimates as unknowns, so that every stage at which its loops may stop is explored
(up to the bound on stages).  On each path the value has to be RF + n/3 RJ with the approximants of Carlson (1979) at some stage of each
loop: series of the integrand about the mean argument to 6th order (oracle: recurrence of the generating function), arguments moved by the
duplication theorem (lemmas below), and a loop may stop only where every entry changed by less than 1e-12 of its value.
The real routine is compared with mpmath.ellippi at the witnesses."""
import itertools
from symwiz.harness import Case
from symwiz import expr as X

TOL = '1e-12'


# ---------------------------------------------------------------- oracle
def expand(M, x):
    """coefficients of prod (1-x_i s)^(-1/2) up to s^6 for x of mean zero"""
    P = [None, M.q(0)] + [sum((v ** j for v in x), M.q(0)) for j in range(2, 7)]
    T = [M.q(1)]
    for N in range(1, 7):
        T.append(sum((P[j] * T[N - j] for j in range(1, N + 1)), M.q(0)) / (2 * N))
    return T


def series(M, a, num, den):
    """int of prod (t+a_i)^-1/2 (normalised to mu^-p), expanded about the mean: sum_N num/(2N+den) T_N, N T_N = 1/2 sum_j P_j T_(N-j)"""
    mu = sum(a[1:], a[0]) / len(a)
    x = [1 - v / mu for v in a]
    T = expand(M, x)
    s = sum((M.q(num, 2 * N + den) * T[N] for N in range(7)), M.q(0))
    return s / (mu ** M.q(den, 2) if M.sym else mu ** (den / 2.))


def rf_stages(M, y, n):
    a, out = [M.q(0), y, M.q(1)], []
    for k in range(n):
        out.append(series(M, a, 1, 1))
        s = [M.np.sqrt(v) for v in a]
        lam = s[0] * s[1] + s[0] * s[2] + s[1] * s[2]
        a = [(v + lam) / 4 for v in a]
    return out


def rc_stages(M, x, y, n):
    out = []
    for k in range(n):
        out.append(series(M, [x, y, y], 1, 1))
        lam = 2 * M.np.sqrt(x) * M.np.sqrt(y) + y
        x, y = (x + lam) / 4, (y + lam) / 4
    return out


def rj_parts(M, y, p, n):
    """for each stage: (series at the stage, RC approximants of the stage)"""
    a, out = [M.q(0), y, M.q(1), p], []
    for k in range(n + 1):
        s = [M.np.sqrt(v) for v in a]
        lam = s[0] * s[1] + s[0] * s[2] + s[1] * s[2]
        al = (a[3] * (s[0] + s[1] + s[2]) + s[0] * s[1] * s[2]) ** 2
        be = a[3] * (a[3] + lam) ** 2
        out.append((series(M, [a[0], a[1], a[2], a[3], a[3]], 3, 3), rc_stages(M, al, be, n) if k < n else None))
        a = [(v + lam) / 4 for v in a]
    return out


def rj_value(M, parts, cs, tail):
    s = M.q(0)
    for k, c in enumerate(cs):
        s = s + 3 * M.q(1, 4 ** k) * parts[k][1][c]
    j = len(cs)
    return s + M.q(1, 4 ** j) * parts[j - 1 + tail][0]


def num(e, env):
    import mpmath
    with mpmath.workdps(60):
        return X.evalf(X.lift(e), env, mpmath)


def same(a, b):
    return abs(a - b) <= 1e-35 * max(1, abs(a))


def entry(M, v, n, y, p, K, env, chg, tag):
    """the value of one entry is a pair of approximants, and the stopping tests of the path allow it"""
    parts, rf = rj_parts(M, y, p, K), rf_stages(M, y, K)
    nv = num(v, env)
    nf = [num(f, env) for f in rf]
    ns = [(num(s, env), [num(c, env) for c in (cs or [])]) for s, cs in parts]
    import mpmath
    nn = num(n, env)
    for i in range(K):
        for j in range(1, K + 1):
            for cs in itertools.product(range(K), repeat=j):
                for tail in (0, 1):
                    with mpmath.workdps(60):
                        w = sum(3 * mpmath.mpf(4) ** -k * ns[k][1][c] for k, c in enumerate(cs)) + mpmath.mpf(4) ** -j * ns[j - 1 + tail][0]
                        w = nf[i] + nn / 3 * w
                        ok = same(nv, w)
                    if not ok:
                        continue
                    M.eq(tag + ' value', v, rf[i] + n / 3 * rj_value(M, parts, cs, tail))
                    return i, cs, tail, rf, parts
    # no approximant matches: state the last one, for the report
    M.eq(tag + ' value', v, rf[K - 1] + n / 3 * rj_value(M, parts, [K - 1] * K, 0))


def accuracy(M, qs, ps):
    """the real routine against mpmath at the witness and at the same arguments scaled by powers of ten (relative error below 1e-8
    for 1e-12 <= 1-n <= 1e9), in one array, reversed, one by one and as a scalar"""
    import mpmath
    from math import isinf
    np, Pi = M.np, M.wiz.elliptic.ellipticPiCarlson
    y, r = [], []
    for k, (q, p) in enumerate(zip(qs, ps)):
        for a in ((1e-4, 1e-2, 1, 30, 1e3) if k == 0 else (1,)):
            for b in ((1e-5, 1e-2, 1, 10, 1e2, 1e3) if k == 0 else (1,)):
                y.append(min(max(float(q * a) ** 2, 1e-12), 1e12))
                r.append(min(max(float(p * b) ** 2, 1e-12), 1e9))
    m, n = 1 - np.array(y), 1 - np.array(r)
    with mpmath.workdps(30):
        ref = np.array([float(mpmath.ellippi(mpmath.mpf(float(u)), mpmath.mpf(float(w))).real) for u, w in zip(n, m)])
    M.true('finite', bool(np.all(np.isfinite(Pi(n, m)))))
    M.eq('value', Pi(n, m) / ref, 1.0, tol=1e-8)
    M.eq('value reversed', Pi(n[::-1], m[::-1]) / ref[::-1], 1.0, tol=1e-8)
    for k in range(0, len(m), 7):
        M.eq('value alone', Pi(n[k:k + 1], m[k:k + 1]) / ref[k], 1.0, tol=1e-8)
        M.eq('value scalar', Pi(float(n[k]), float(m[k])) / ref[k], 1.0, tol=1e-8)


def point(names):
    import mpmath
    # arguments far apart, where no two approximants agree
    return {n: mpmath.mpf(v) for n, v in zip(names, (0.0078125, 64.25, 512.5, 96.25) if len(names) == 4 else (0.0078125, 512.5))}


def pi(size, K, fix=None):
    """size entries; q^2 = 1-m, p^2 = 1-n"""
    def run(M):
        rng = {'q': (0.05, 30), 'p': (0.01, 100)}
        qs = [M.pos('q%d' % k, rng['q']) if fix != 'm' or not M.sym else M.q(1) for k in range(size)]
        ps = [M.pos('p%d' % k, rng['p']) if fix != 'n' or not M.sym else M.q(1) for k in range(size)]
        ys, rs = [q * q for q in qs], [p * p for p in ps]
        ns = [1 - r for r in rs]
        if not M.sym:
            accuracy(M, qs, ps)
            return
        v = M.wiz.elliptic.ellipticPiCarlson(M.arr(ns), M.arr([1 - y for y in ys]))
        M.shape('value', v, (size,))
        env = point(['q%d' % k for k in range(size)] + ['p%d' % k for k in range(size)])
        got = []
        for k in range(size):
            M.true('finite', X.lift(v[k]).op not in ('inf', 'nan', 'sinf'))
        for k in range(size):
            got.append(entry(M, v[k], ns[k], ys[k], rs[k], K, env, None, 'entry %d' % k))
        if None in got:
            return
        stops(M, got, env, fix)
    return run


def stops(M, got, env, fix):
    """every loop stopped where every entry changed by less than TOL of its value (matched by value with the changes the code measured)"""
    hv = [(num(x, env), x, d) for x, d in M.ctx.havoc]

    def size_of(e):
        w = num(e, env)
        for nx, x, d in hv:
            if same(nx, w) or same(-nx, w):
                return d
        return None

    def need(label, cur, old):
        rel = size_of(1 - old / cur)
        if rel is not None:
            M.le(label, rel, M.q(TOL))
            return
        c, a = size_of(cur - old), size_of(cur)
        if c is not None and a is not None:
            M.le(label, c, M.q(TOL) * a)
        elif c is not None:
            M.le(label, c, M.q(TOL))
        else:
            M.le(label + ' (the change is not part of the test)', 0 * M.q(1), M.q(-1))
    for e, (i, cs, tail, rf, parts) in enumerate(got):
        if i > 0:
            need('RF stop %d' % e, rf[i], rf[i - 1])
        else:
            need('RF stop %d' % e, rf[0], 0 * rf[0])
        if fix == 'n':
            continue
        for k, c in enumerate(cs):
            r = parts[k][1]
            need('RC stop %d' % e, r[c], r[c - 1] if c else 0 * r[0])
        now = rj_value(M, parts, cs, tail)
        old = rj_value(M, parts, cs[:-1], tail) if len(cs) > 1 else 0 * now
        need('RJ stop %d' % e, now, old)


# ---------------------------------------------------------------- lemmas behind the oracle
def args(M, n):
    """t>0, r=sqrt(x), s=sqrt(t+x)>0"""
    t, r = M.pos('t'), [M.pos('r%d' % k) for k in range(n)]
    s = [M.root('s%d' % k, t + r[k] ** 2) for k in range(n)]
    for v in s:
        M.assume(v, '>', 0)
    return t, r, s


def pairs(r): return r[0] * r[1] + r[0] * r[2] + r[1] * r[2]


def dpairs(s, d): return sum((d[i] * s[j] for i in range(3) for j in range(3) if i != j), 0 * s[0])


def duplication_rf(M):
    """4 tau = t + pairs(sqrt(t+x)) - lambda maps (0,inf) onto itself and the integrand of RF onto the one of the moved arguments
    (RC(x,y) is RF(x,y,y), of which this is the case of two equal arguments)"""
    t, r, s = args(M, 3)
    lam = pairs(r)
    tau = (t + pairs(s) - lam) / 4
    # tau + (x+lambda)/4 is a product of half sums
    for k in range(3):
        a, b = [s[j] for j in range(3) if j != k]
        M.eq('moved %d' % k, tau + (r[k] ** 2 + lam) / 4, (s[k] + a) * (s[k] + b) / 4)
    # d tau/dt, with ds/dt = 1/(2 s)
    dtau = (1 + dpairs(s, [1 / (2 * v) for v in s])) / 4
    half = (s[0] + s[1]) * (s[0] + s[2]) * (s[1] + s[2]) / 8
    M.eq('integrand', dtau / half, 1 / (s[0] * s[1] * s[2]))
    M.eq('lower limit', M.q(0), (0 * t + pairs(r) - lam) / 4)


def duplication_rj(M):
    """RJ(x,rho) - RJ(moved)/4 = 3 RC(alpha,beta), on the integrand: with x, rho shifted by t, beta-alpha is constant and
    d/dt RC(alpha(t),beta(t)) = -alpha'/(2 sqrt(alpha) beta) makes up the difference of the two integrands"""
    t, r, s = args(M, 3)
    rho = M.pos('rho')
    T, sig, pr = t + rho, pairs(s), s[0] * s[1] * s[2]
    d = [1 / (2 * v) for v in s]
    A = T * (s[0] + s[1] + s[2]) + pr
    beta = T * (T + sig) ** 2
    M.eq('constant', beta - A ** 2, (rho - r[0] ** 2) * (rho - r[1] ** 2) * (rho - r[2] ** 2))
    dA = s[0] + s[1] + s[2] + T * (d[0] + d[1] + d[2]) + d[0] * s[1] * s[2] + s[0] * d[1] * s[2] + s[0] * s[1] * d[2]
    # 3/2 dt/(prod (t+rho)) - 1/4 3/2 dtau/(prod' (tau+rho')) = 3 (1/2) alpha'/(sqrt(alpha) beta) dt, alpha = A^2
    moved = (t + sig - pairs(r)) / 4 + (rho + pairs(r)) / 4
    M.eq('integrand', (1 / T - 1 / (4 * moved)) / pr, 2 * dA / beta)
    M.eq('start', A ** 2, (T * (s[0] + s[1] + s[2]) + pr) ** 2)


def legendre(M):
    """t = cot(phi)^2 turns RF(0,1-m,1) + n/3 RJ(0,1-m,1,1-n) into the integral of 1/((1-n sin^2) sqrt(1-m sin^2))"""
    h, y, rho = M.pos('h'), M.pos('y'), M.pos('rho')               # h = tan(phi/2)
    m, n = 1 - y, 1 - rho
    s, c = 2 * h / (1 + h * h), (1 - h * h) / (1 + h * h)
    M.assume(h, '<', 1)
    D = M.np.sqrt(1 - m * s * s)
    t = (c / s) ** 2
    root = (c / s) * (D / s) / s                                   # sqrt(t (t+1-m) (t+1))
    M.eq('root', root ** 2, t * (t + y) * (t + 1))
    dt = 2 * c / s ** 3                                            # -dt/dphi
    M.eq('integrand', dt / (2 * root) + n / 3 * 3 / 2 * dt / (root * (t + rho)), 1 / ((1 - n * s * s) * D))


def expansion(mult):
    def run(M):
        """the recurrence of the oracle gives the expansion of prod (1-X_i s)^(-1/2): its square times the product is 1 + O(s^7)"""
        x = [M.var('x%d' % k, (-0.4, 0.4)) for k in range(len(mult) - 1)]
        x.append(-sum((k * v for k, v in zip(mult, x)), M.q(0)) / mult[-1])          # mean zero
        a = [v for k, v in zip(mult, x) for _ in range(k)]
        T = expand(M, a)
        prod = [M.q(1)] + [M.q(0)] * 6
        for v in a:
            prod = [prod[0]] + [prod[k] - v * prod[k - 1] for k in range(1, 7)]
        T2 = [sum((T[j] * T[k - j] for j in range(k + 1)), M.q(0)) for k in range(7)]
        for k in range(1, 7):
            M.eq('order %d' % k, sum((prod[j] * T2[k - j] for j in range(k + 1)), M.q(0)), M.q(0), scale=1)
    return run


def pole(M):
    """n=1 is a pole, whatever else is in the array; no entry for no argument"""
    q, p = M.pos('q', (0.1, 3)), M.pos('p', (0.1, 3))
    one = M.q(1)
    v = M.wiz.elliptic.ellipticPiCarlson(M.arr([one, 1 - p * p]), M.arr([1 - q * q, 1 - q * q]))
    M.shape('value', v, (2,))
    M.true('pole', (v[0].op == 'inf' and v[0].args[0] > 0) if M.sym else v[0] == float('inf'))
    if M.sym:
        M.true('other entry', v[1].op not in ('inf', 'nan', 'sinf'))
    else:
        import mpmath
        M.true('other entry', bool(M.np.isfinite(v[1])))
        M.eq('other entry', v[1] / float(mpmath.ellippi(float(1 - p * p), float(1 - q * q)).real), 1.0, tol=1e-8)
    M.shape('empty', M.wiz.elliptic.ellipticPiCarlson(M.arr([]), M.arr([])), (0,))


def cases(tier):
    o = dict(havoc=True, assume_defined=True, overrides={'elliptic.ellipticPiCarlson': None}, cost=100)
    cs = [Case('value_1', pi(1, 2), 'one entry, every m<1 and n<1; loops up to their 2nd stage', unroll=1, **o),
          Case('value_2_n0', pi(2, 2, 'n'), 'two entries, every m<1, n=0; loops up to their 2nd stage', unroll=1, **o),
          Case('value_2_m0', pi(2, 2, 'm'), 'two entries, every n<1, m=0; loops up to their 2nd stage', unroll=1, **o),
          Case('value_1_n0_3', pi(1, 3, 'n'), 'one entry, every m<1, n=0; loops up to their 3rd stage', unroll=2, **o),
          Case('pole', pole, 'two entries, one at the pole n=1; empty arrays', unroll=1, **o),
          Case('duplication_rf', duplication_rf, 'lemma: every t>0 and x,y,z>0'),
          Case('duplication_rj', duplication_rj, 'lemma: every t>0 and x,y,z,rho>0'),
          Case('legendre', legendre, 'lemma: every angle, m<1, n<1'),
          Case('expansion_rf', expansion([1, 1, 1]), 'lemma: 3 arguments, order 6'),
          Case('expansion_rj', expansion([1, 1, 1, 2]), 'lemma: 3 arguments and a double one, order 6')]
    if tier == 'thorough':
        cs += [Case('value_1_3', pi(1, 3), 'one entry, every m<1 and n<1; loops up to their 3rd stage', unroll=2, **o),
               Case('value_1_m0_3', pi(1, 3, 'm'), 'one entry, every n<1, m=0; loops up to their 3rd stage', unroll=2, **o)]
    return cs
