"""C17: wake vorticity solvers: circulation bookkeeping and momentum relations, against formulas written from the definitions
(effective thrust, Spera line above 0.8976, telescoping circulation, tangential induction)"""
from symwiz.harness import Case


def tot(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def setup(M, n, zero=False):
    r, s = [], 0
    for i in range(n):
        if zero and i == 0:
            r.append(0 * M.pi)
            continue
        s = s + M.pos('dr%d' % i, (0.2, 0.5))
        r.append(s)
    R, U0, Om = M.pos('R', (1, 2)), M.pos('U0', (5, 9)), M.pos('Omega', (5, 9))
    k = [M.var('k%d' % i, (0.1, 0.7)) for i in range(n)]
    G = [x * M.pi * U0 * U0 / Om for x in k]
    return r, R, U0, Om, k, G


def induction(M, ct, corr):
    ac = M.q(34, 100)
    if corr and M.split(ct, '>', M.q(8976, 10000)):
        return (ct - 4 * ac * ac) / (4 * (1 - 2 * ac))
    return (1 - M.np.sqrt(1 - ct)) / 2


def discr(n, swirl, corr, tan=True, nB=1, own=False):
    def run(M):
        r, R, U0, Om, k, G = setup(M, n)
        kw = {}
        if own:
            rc, s = [], r[0] * 0
            for i in range(n):
                s = r[i] + M.pos('dc%d' % i, (0.01, 0.1))
                rc.append(s)
            kw['r_cyl'] = M.arr(rc)
        elif n == 1:
            rc = [R]
            M.assume(R, '>=', r[0])
        else:
            rc = [(a + b) / 2 for a, b in zip(r[1:], r[:-1])] + [r[-1] + (r[-1] - r[-2]) / 2]
        if not tan:
            kw['bTanInd_k'] = False
        if not corr:
            kw['bHighThrustCorr'] = False
        gt, gl, Gr, misc = M.wiz.Solver.WakeVorticityFromCirculation_Discr(M.arr(r), M.arr(G), R, U0, Om, nB, swirl, **kw)
        k = [nB * x for x in k]
        G = [nB * x for x in G]
        kn, Gn = k[1:] + [0], G[1:] + [0]
        lam = [Om * x / U0 for x in rc]
        ap = [(a + b) / (4 * M.pi * Om * x * x) if tan else 0 * a for a, b, x in zip(G, Gn, rc)]
        # rotation term between the cylinders, outboard part
        loc = [(k[i + 1] / 2) ** 2 * (1 / lam[i] ** 2 - 1 / lam[i + 1] ** 2) for i in range(n - 1)] + [0]
        a = [None] * n
        outer = 1                       # 1-2a of the next station outboard
        for i in range(n - 1, -1, -1):
            if swirl:
                a[i] = induction(M, k[i] * (1 + k[i] / (4 * lam[i] ** 2)) - tot(loc[i + 1:]), corr)
            elif corr and M.split(k[i], '>', M.q(8976, 10000)):
                a[i] = induction(M, k[i], corr)
            elif not tan and not corr:
                a[i] = induction(M, k[i], corr)
            else:
                a[i] = (1 - M.np.sqrt(outer * outer - (k[i] - kn[i]) * (1 + ap[i]))) / 2
            outer = 1 - 2 * a[i]
        M.shape('gamma_t', gt, (n,))
        M.eq('axial induction', misc['a'], M.arr(a))
        # accumulated strengths give the induction
        for i in range(n):
            M.eq('sum of strengths %d' % i, tot(list(gt)[i:]), -2 * U0 * a[i])
        an = a[1:] + [0]
        M.eq('tangential strength', gt, M.arr([-2 * U0 * (x - y) for x, y in zip(a, an)]))
        M.eq('pitch', misc['h'], M.arr([2 * M.pi * U0 * (1 - x - y) / (Om * (1 + c)) for x, y, c in zip(a, an, ap)]))
        M.eq('circulation', misc['Gamma_cp'], M.arr(G))
        M.eq('radii', misc['r_cp'], M.arr(r))
        if swirl:
            M.eq('tangential induction', misc['a_prime'], M.arr([g / (4 * M.pi * Om * x * x) for g, x in zip(G, r)]))
            M.eq('longitudinal strength', gl, M.arr([(g - h) / (2 * M.pi * x) for g, h, x in zip(G, Gn, r)]))
            M.eq('root circulation', Gr, -G[0])
            M.eq('circulation balance', tot(g * 2 * M.pi * x for g, x in zip(list(gl), r)) + Gr, 0 * U0, scale=list(G))
        else:
            M.true('no swirl: no longitudinal strength', gl is None or gl == 0)
            M.true('no swirl: no root vortex', Gr is None or Gr == 0)
            M.eq('no tangential induction', misc['a_prime'], M.arr([0 * U0] * n))
    return run


def cont_ref(M, rb, lr, k, swirl, corr):
    n = len(k)
    ap = [x / (4 * l * l) if swirl else 0 * x for x, l in zip(k, lr)]
    f = [l * l * x * x / b for l, x, b in zip(lr, ap, rb)]
    rot = [8 * tot((f[j] + f[j + 1]) / 2 * (rb[j + 1] - rb[j]) for j in range(i, n - 1)) + 0 * k[0] for i in range(n)]
    if not swirl:
        rot = [0 * x for x in k]
    kj = [x * (1 + y) for x, y in zip(k, ap)]
    eff = [x - y for x, y in zip(kj, rot)]
    return ap, rot, kj, eff, [induction(M, e, corr) for e in eff]


def cont_ind(n, swirl, corr, cq=False, zero=False):
    """inductions alone"""
    def run(M):
        rb, s = [], 0
        for i in range(n):
            s = s + M.pos('dr%d' % i, (0.2, 0.4))
            rb.append(s)
        L = M.pos('Lambda', (4, 9))
        lr = [L * x for x in rb]
        lin = list(lr)
        if zero:
            lin[0] = 0 * L
            lr[0] = lr[1] * M.q(1, 100)
        k = [M.var('k%d' % i, (0.1, 0.7)) for i in range(n)]
        kw = {}
        if cq:
            Cq = [M.var('Cq%d' % i, (0.05, 0.1)) for i in range(n)]
            for x in k:
                M.assume(x, '!=')
            kw['Cq'] = M.arr(Cq)
        if not corr:
            kw['bHighThrustCorr'] = False
        a, ap, misc = M.wiz.Solver.InductionsFromCirculation_VC_Cont(M.arr(rb), M.arr(lin), M.arr(k), swirl, **kw)
        ap2, rot, kj, eff, a2 = cont_ref(M, rb, lr, k, swirl, corr)
        M.shape('a', a, (n,))
        M.eq('Ct_KJ', misc['Ct_KJ'], M.arr(kj))
        M.eq('Ct_rot', misc['Ct_rot'], M.arr(rot))
        M.eq('Ct_eff', misc['Ct_eff'], M.arr(eff))
        M.eq('a', a, M.arr(a2))
        if cq:
            M.eq("a' from Cq", ap, M.arr([c / (4 * l * (1 - x)) for c, l, x in zip(Cq, lr, a2)]))
        else:
            M.eq("a'", ap, M.arr(ap2))
    return run


def cont(n, swirl, corr, zero=False):
    def run(M):
        r, R, U0, Om, k, G = setup(M, n, zero)
        kw = {} if corr else dict(bHighThrustCorr=False)
        gt, gl, Gr, misc = M.wiz.Solver.WakeVorticityFromCirculation_Cont(M.arr(r), M.arr(G), R, U0, Om, swirl, **kw)
        r = list(r)
        if zero:
            r[0] = r[1] / 2
        Gn = G[1:] + [0]
        ap, rot, kj, eff, a = cont_ref(M, [x / R for x in r], [Om * x / U0 for x in r], k, swirl, corr)
        h = [U0 * (1 - 2 * x) * 2 * M.pi / (Om * (1 + 2 * y)) for x, y in zip(a, ap)]
        for x, y in zip(a, ap):
            M.assume(2 * x, '!=', 1)
        M.eq('a', misc['a'], M.arr(a))
        M.eq("a'", misc['a_prime'], M.arr(ap))
        M.eq('convection', misc['Vz'], M.arr([U0 * (1 - 2 * x) for x in a]))
        M.eq('pitch', misc['h'], M.arr(h))
        M.eq('tangential strength', gt, M.arr([-(g - q) / x for g, q, x in zip(G, Gn, h)]))
        M.eq('radii used', misc['r_cp'], M.arr(r))
        M.eq('circulation', misc['Gamma_cp'], M.arr(G))
        if swirl:
            M.eq('longitudinal strength', gl, M.arr([(g - q) / (2 * M.pi * x) for g, q, x in zip(G, Gn, r)]))
            M.eq('root circulation', Gr, -G[0])
            M.eq('circulation balance', tot(g * 2 * M.pi * x for g, x in zip(list(gl), r)) + Gr, 0 * U0, scale=list(G))
        else:
            M.eq('no longitudinal strength', gl, 0 * U0)
            M.eq('no root vortex', Gr, 0 * U0)
    return run


def streamtube(n, swirl):
    def run(M):
        L = M.pos('Lambda', (4, 9))
        rb = [M.pos('r%d' % i, (0.2, 1)) for i in range(n)]
        ct = [M.between('Ct%d' % i, -3, 1, (0.1, 0.9)) for i in range(n)]
        cq = [M.var('Cq%d' % i, (0.01, 0.2)) for i in range(n)]
        a, ap = M.wiz.Solver.InductionsFromPrescribedCtCq_ST(M.arr(rb), M.arr(ct), M.arr(cq), L, swirl)
        for i in range(n):
            M.eq('Ct=4a(1-a) %d' % i, 4 * a[i] * (1 - a[i]), ct[i])
            M.le('a<=1/2 %d' % i, 2 * a[i], 1)
            if swirl:
                M.eq("Cq=4a'(1-a)lambda_r %d" % i, 4 * ap[i] * (1 - a[i]) * L * rb[i], cq[i])
        if not swirl:
            M.eq("no a'", ap, 0 * L)
    return run


def interfaces(swirl, what):
    """WakeVorticityFromCt / FromGamma: swirl below a tip speed ratio of 20 only, k pi U0^2/Omega"""
    def run(M):
        r, R, U0, Om, k, G = setup(M, 2)
        M.assume(Om * R, '<' if swirl else '>=', 20 * U0)
        S = M.wiz.Solver
        if what == 'gamma':
            o = S.WakeVorticityFromGamma(M.arr(r), M.arr(G), R, U0, Om)
        else:
            o = S.WakeVorticityFromCt(M.arr(r), M.arr(k), R, U0, Om)
        p = S.WakeVorticityFromCirculation_Discr(M.arr(r), M.arr(G), R, U0, Om, 1, swirl)
        M.eq('gamma_t', o[0], p[0])
        if swirl:
            M.eq('gamma_l', o[1], p[1])
            M.eq('Gamma_r', o[2], p[2])
        else:
            M.true('no swirl', o[1] is None and o[2] is None)
        for q in ('a', 'a_prime', 'Gamma_cp'):
            M.eq(q, o[3][q], p[3][q])
    return run


def infinite(what):
    """infinite rotational speed is replaced by 800 rad/s"""
    def run(M):
        r, R, U0, Om, k, G = setup(M, 2)
        S = M.wiz.Solver
        M.assume(40 * U0, '<=', R)
        f = S.WakeVorticityFromCt if what == 'ct' else S.WakeVorticityFromGamma
        o, p = (f(M.arr(r), M.arr(k), R, U0, w) for w in (float('inf'), 800))
        M.eq('gamma_t', o[0], p[0])
        M.eq('a', o[3]['a'], p[3]['a'])
    return run


def refuse(M):
    S = M.wiz.Solver
    r, R, U0, Om, k, G = setup(M, 2)
    for f in (lambda: S.InductionsFromCirculation_VC_Cont(M.arr(r), M.arr(r), M.arr(k), True, method='pitch'),
              lambda: S.WakeVorticityFromCirculation_Discr(M.arr(r), M.arr(G), R, U0, Om, 1, True, r_cyl=M.arr([0 * R, R]))):
        M.raises('refused', Exception, f)


def cases(tier):
    th = tier == 'thorough'
    A = dict(assume_defined=True)
    cs = []
    for sw in (True, False):
        for co in (True, False):
            t = '%s_%s' % ('swirl' if sw else 'noswirl', 'corr' if co else 'nocorr')
            for n in ((1, 2, 3, 4) if th else (1, 2, 3)):
                cs.append(Case('discr%d_%s' % (n, t), discr(n, sw, co), '%d stations' % n, cost=n * n, **A))
                cs.append(Case('cont_ind%d_%s' % (n, t), cont_ind(n, sw, co), '%d stations' % n, cost=n, **A))
            for n in ((1, 2, 3) if th else (1, 2)):
                cs.append(Case('cont%d_%s' % (n, t), cont(n, sw, co), '%d stations' % n, cost=n * n, **A))
            cs.append(Case('cont2_zero_%s' % t, cont(2, sw, co, zero=True), '2 stations, first at the hub', cost=4, **A))
            cs.append(Case('discr2_notan_%s' % t, discr(2, sw, co, tan=False), '2 stations', cost=4, **A))
            no = 3 if th or not co else 2
            cs.append(Case('discr%d_own_%s' % (no, t), discr(no, sw, co, own=True, nB=3), '%d stations, given cylinder radii, 3 blades' % no, cost=8, **A))
            cs.append(Case('cont_ind2_cq_%s' % t, cont_ind(2, sw, co, cq=True), '2 stations, Cq given', cost=3, **A))
            cs.append(Case('cont_ind2_zero_%s' % t, cont_ind(2, sw, co, zero=True), '2 stations, zero local speed ratio', cost=3, **A))
        cs.append(Case('streamtube_%s' % sw, streamtube(2, sw), '2 stations', **A))
        cs.append(Case('from_gamma_%s' % sw, interfaces(sw, 'gamma'), '2 stations', cost=3, **A))
    cs.append(Case('from_ct_noswirl', interfaces(False, 'ct'), '2 stations', cost=3, **A))
    cs.append(Case('infinite_ct', infinite('ct'), '2 stations', cost=3, **A))
    cs.append(Case('infinite_gamma', infinite('gamma'), '2 stations', cost=3, **A))
    cs.append(Case('refuse', refuse, '2 stations', **A))
    return cs
