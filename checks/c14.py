"""C14: contributions to the velocity of a turbine"""
import itertools
from symwiz.harness import Case
from .turbine import T, points, cols, els, skew, expected, dot

FLAGS = list(itertools.product((False, True), repeat=3))


def name(fl):
    return ''.join(c for c, f in zip('tlr', fl) if f) or 'none'


def parts(conv, kind, ncyl, fl, only_ind, defaults=False):
    def run(M):
        yaw = M.var('yaw', (-0.6, 0.6))
        t = T(M, conv, yaw=yaw, ncyl=ncyl)
        m = skew(M, t, kind)
        WT = t.make()
        p = points(M, 2)
        X = cols(M, p)
        k = dict(tang=fl[0], longi=fl[1], root=fl[2])
        if defaults:
            u = WT.compute_u(*X)
        else:
            u = WT.compute_u(*X, only_ind=only_ind, **k)
        for j in range(2):
            e = expected(M, t, p[j], m, **k)
            for i in range(3):
                M.eq('component %d point %d' % (i, j), u[i][j], e[i] if only_ind else e[i] + t.U0[i], scale=1e-9)
    return run


def additive(kind, ncyl):
    """real code only: contributions of the calls add up"""
    def run(M):
        t = T(M, 'y', ncyl=ncyl)
        skew(M, t, kind)
        WT = t.make()
        X = cols(M, points(M, 2))
        f = lambda a, b, c, o=True: WT.compute_u(*X, only_ind=o, tang=a, longi=b, root=c)
        one = [f(*v) for v in ((True, False, False), (False, True, False), (False, False, True))]
        for a, b, c in FLAGS:
            u, w = f(a, b, c), f(a, b, c, False)
            for i in range(3):
                s = 0 * one[0][i]
                for on, o in zip((a, b, c), one):
                    if on:
                        s = s + o[i]
                M.eq('%s %d' % (name((a, b, c)), i), u[i], s, scale=1e-9)
                M.eq('%s wind %d' % (name((a, b, c)), i), w[i], s + t.U0[i], scale=1e-9)
    return run


def missing(kind, ncyl, which):
    """absent or zero loading of a kind contributes nothing"""
    def run(M):
        t = T(M, 'y', ncyl=ncyl)
        m = skew(M, t, kind)
        WT = t.make()
        z = M.q(0)
        if which == 'none':
            WT.gamma_l = WT.Gamma_r = None
        elif which == 'root0':
            WT.Gamma_r = z
        elif which == 'longi0':
            WT.gamma_l = M.arr([z] * ncyl)
        elif which == 'tang0':
            WT.gamma_t = M.arr([z] * ncyl)
        p = points(M)
        X = cols(M, p)
        u = WT.compute_u(*X, only_ind=True, tang=True, longi=True, root=True)
        if which == 'none':
            e = expected(M, t, p[0], m)
        elif which == 'root0':
            e = expected(M, t, p[0], m, longi=True)
        else:
            return [M.eq('%d' % i, u[i], WT.compute_u(*X, only_ind=True, tang=which != 'tang0', longi=which != 'longi0', root=True)[i], scale=1e-9) for i in range(3)]
        for i in range(3):
            M.eq('%d' % i, u[i][0], e[i], scale=1e-9)
    return run


def blank(kind, ncyl, conv, model='VC', ground=False, only_ind=True, turned=True):
    def run(M):
        yaw = M.var('yaw', (-0.6, 0.6)) if turned else None
        t = T(M, conv, yaw=yaw, ncyl=ncyl)
        skew(M, t, kind)
        WT = t.make(Model=model)
        p = points(M, 2)
        X = cols(M, p)
        full = model == 'VC'
        k = dict(longi=full, root=full, ground=ground, only_ind=only_ind)
        u = WT.compute_u(*X, no_wake=True, **k)
        v = WT.compute_u(*X, **k)
        w = WT.compute_u(*X, no_wake=False, **k)
        for j in range(2):
            q = t.rotor(p[j])
            inside = False
            if M.split(q[2], '>=', M.q('-0.6') * t.R):
                inside = M.split(M.np.sqrt(q[0] * q[0] + q[1] * q[1]), '<', M.q('1.001') * t.R)
            for i in range(3):
                e = (0 * t.R if only_ind else t.U0[i] + 0 * t.R) if inside else v[i][j]
                M.eq('component %d point %d %s' % (i, j, 'in the wake' if inside else 'elsewhere'), u[i][j], e, scale=1e-9)
                M.eq('not blanked %d point %d' % (i, j), w[i][j], v[i][j], scale=1e-9)
    return run


ATTR = ('r_hub', 'U0_g', 'R', 'r', 'gamma_t', 'gamma_l', 'Gamma_r', 'e_shaft_g', 'e_vert_g', 'yaw_pos', 'T_wt2g', 'T_c2wt', 'Ground', 'Model', 'Lambda')


def again(kind, ncyl, ground=False, no_wake=False, turned=True):
    """the same call twice; nothing changes"""
    def run(M):
        yaw = M.var('yaw', (-0.6, 0.6)) if turned else None
        t = T(M, 'y', yaw=yaw, ncyl=ncyl)
        if kind != 'auto':
            skew(M, t, kind)
        WT = t.make()
        p = points(M, 2)
        X = cols(M, p)
        X0 = [M.copy(x) for x in X]
        old = {}
        for a in ATTR:
            v = getattr(WT, a)
            old[a] = M.copy(v) if hasattr(v, 'shape') and getattr(v, 'shape', ()) != () else v
        k = dict(longi=True, root=True, ground=ground, no_wake=no_wake)
        u = WT.compute_u(*X, **k)
        other = WT.compute_u(*[M.arr([x[0]]) for x in X], tang=False, only_ind=True, ground=not ground, no_wake=not no_wake)
        v = WT.compute_u(*X, **k)
        for i in range(3):
            M.eq('again %d' % i, u[i], v[i], scale=1e-9)
            M.eq('control points %d' % i, X[i], X0[i])
        for a in ATTR:
            v = getattr(WT, a)
            if isinstance(old[a], (str, bool)) or v is None:
                M.true(a + ' unchanged', v is old[a] or v == old[a])
            elif hasattr(old[a], 'shape') and old[a].shape != ():
                M.eq(a + ' unchanged', v.reshape(-1), old[a].reshape(-1))
            elif a != 'Lambda':
                M.eq(a + ' unchanged', v, old[a])
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    kinds = ('straight', 'skew', 'neg')
    C = lambda n, f, b='two points', **k: cs.append(Case(n, f, b, overrides=els, assume_defined=True, **k))
    for ncyl in (1, 2, 3) if th else (1, 2):
        for kind in kinds:
            for fl in FLAGS:
                for oi in (True, False):
                    conv = ('y', 'z')[oi] if fl[0] else ('z', 'y')[oi]
                    if kind == 'neg' and not th and (not fl[0] or oi):
                        continue
                    C('parts_%s%d_%s_%s' % (kind, ncyl, name(fl), 'ind' if oi else 'tot'), parts(conv, kind, ncyl, fl, oi))
            C('defaults_%s%d' % (kind, ncyl), parts('y', kind, ncyl, (True, False, False), False, True))
            if kind == 'neg' and not th:
                continue
            C('additive_%s%d' % (kind, ncyl), additive(kind, ncyl))
            for w in ('none', 'root0') + (('longi0', 'tang0') if ncyl == 1 else ()):
                C('missing_%s_%s%d' % (w, kind, ncyl), missing(kind, ncyl, w), 'one point')
            C('blank_%s%d' % (kind, ncyl), blank(kind, ncyl, 'y' if ncyl == 1 else 'z'))
            C('blank_total_%s%d' % (kind, ncyl), blank(kind, ncyl, 'z' if ncyl == 1 else 'y', only_ind=False, ground=True, turned=th))
            C('again_%s%d' % (kind, ncyl), again(kind, ncyl))
            C('again_blank_%s%d' % (kind, ncyl), again(kind, ncyl, ground=True, no_wake=True, turned=th))
        C('again_auto%d' % ncyl, again('auto', ncyl, turned=th))
    for m in ('VCFF', 'VD', 'SS'):
        C('blank_%s' % m, blank('straight', 1, 'y', m, turned=th))
        C('blank_total_%s' % m, blank('straight', 1, 'z', m, only_ind=False, turned=th))
    return cs
