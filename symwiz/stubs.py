"""uninterpreted stand-ins for induced-velocity functions, used when the code that combines them is checked"""
import inspect
import numpy as np
from . import expr as X
from .expr import lift, E
from . import npshim as S

SIG = {
    'VortexRing.ring_u': (['Xcp', 'Ycp', 'Zcp', 'Gamma', 'R', 'polar_out', 'epsilon', 'reg_method'], {'Gamma': -1, 'R': 1, 'polar_out': False, 'epsilon': 0, 'reg_method': 'Saffman'}),
    'VortexRing.ring_u_polar': (['r', 'z', 'Gamma', 'r0', 'z0', 'epsilon', 'reg_method'], {'Gamma': -1, 'r0': 1, 'z0': 0, 'epsilon': 0, 'reg_method': 'Saffman'}),
    'VortexCylinder.vc_tang_u': (['Xcp', 'Ycp', 'Zcp', 'gamma_t', 'R', 'polar_out', 'epsilon'], {'gamma_t': -1, 'R': 1, 'polar_out': True, 'epsilon': 0}),
    'VortexCylinder.vc_tang_u_doublet': (['Xcp', 'Ycp', 'Zcp', 'gamma_t', 'R', 'r_bar_Cut', 'polar_out'], {'gamma_t': -1, 'R': 1, 'r_bar_Cut': 6, 'polar_out': True}),
    'VortexCylinder.vc_longi_u': (['Xcp', 'Ycp', 'Zcp', 'gamma_l', 'R', 'polar_out'], {'gamma_l': -1, 'R': 1, 'polar_out': False}),
    'VortexCylinder.vc_root_u': (['Xcp', 'Ycp', 'Zcp', 'Gamma_r', 'polar_out'], {'Gamma_r': -1, 'polar_out': False}),
    'VortexCylinderSkewed.svc_tang_u': (['Xcp', 'Ycp', 'Zcp', 'gamma_t', 'R', 'm', 'ntheta', 'polar_out'], {'gamma_t': -1, 'R': 1, 'm': 0, 'ntheta': 180, 'polar_out': False}),
    'VortexCylinderSkewed.svc_longi_u': (['Xcp', 'Ycp', 'Zcp', 'gamma_l', 'R', 'm', 'ntheta', 'polar_out'], {'gamma_l': -1, 'R': 1, 'm': 0, 'ntheta': 180, 'polar_out': False}),
    'VortexCylinderSkewed.svc_root_u': (['Xcp', 'Ycp', 'Zcp', 'Gamma_r', 'm', 'polar_out'], {'Gamma_r': -1, 'm': 0, 'polar_out': False}),
    'VortexDoublet.doublet_line_u': (['Xcp', 'Ycp', 'Zcp', 'dmz_dz', 'm', 'L'], {'m': 0, 'L': float('inf')}),
    'SelfSimilar.ss_u': (['Xcp', 'Ycp', 'Zcp', 'gamma_t', 'R', 'lambda_', 'eta'], {'R': 1, 'lambda_': 0.587, 'eta': 1.32}),
}


def sc(v):
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise X.Unsupported('array parameter of a stubbed element')
        v = v.reshape(-1)[0]
    if isinstance(v, str):
        return X.const(sum((i + 1) * ord(ch) for i, ch in enumerate(v)))
    if isinstance(v, (bool, np.bool_)):
        return X.const(1 if v else 0)
    if isinstance(v, float) and v == float('inf'):
        return X.const(-99999)
    return lift(v)


def stub(name):
    names, dfl = SIG[name]
    short = name.split('.')[1]
    log = []

    def f(*args, **kw):
        v = dict(dfl)
        v.update(zip(names, args))
        for k in kw:
            if k not in names:
                raise TypeError('%s() got an unexpected keyword argument %r' % (short, k))
        v.update(kw)
        pol = bool(v.get('polar_out', False)) if 'polar_out' in names else False
        if short == 'ss_u':
            nout = 1
        elif short == 'ring_u_polar':
            nout = 2
        elif pol and short in ('ring_u', 'vc_tang_u', 'vc_tang_u_doublet'):
            nout = 2
        else:
            nout = 3
        ni = 2 if names[1] == 'z' else 3
        xs = [S.asarray(v[n]) for n in names[:ni]]
        par = [sc(v[n]) for n in names[ni:]]
        xs = np.broadcast_arrays(*xs)
        out = []
        for c in range(nout):
            o = np.empty(xs[0].shape, dtype=object)
            for i in np.ndindex(*xs[0].shape):
                o[i] = X.fn('stub_%s_%d' % (short, c), *[lift(x[i]) for x in xs], *par)
            out.append(o)
        return out[0] if nout == 1 else tuple(out)
    return f


def elements(names=None):
    return {n: stub(n) for n in (names or SIG)}


def _flag(v):
    if isinstance(v, E) and v.op == 'inf':
        return X.const(-99999)
    return sc(v)


def discr():
    """uninterpreted wake solver (any number of stations)"""
    names = ['r_cp', 'Gamma_cp', 'R', 'U0', 'Omega', 'nB', 'bSwirl', 'method', 'bTanInd_k', 'bHighThrustCorr', 'r_cyl']
    dfl = dict(method='analytical', bTanInd_k=True, bHighThrustCorr=True, r_cyl=None)

    def f(*args, **kw):
        v = dict(dfl)
        v.update(zip(names, args))
        for k in kw:
            if k not in names:
                raise TypeError('unexpected keyword argument %r' % k)
        v.update(kw)
        r, g = S.asarray(v['r_cp']).ravel(), S.asarray(v['Gamma_cp']).ravel()
        if r.size != g.size:
            raise ValueError('operands could not be broadcast together')
        par = [lift(x) for x in r] + [lift(x) for x in g] + [_flag(v[n]) for n in names[2:10]]
        if v['r_cyl'] is not None:
            par += [lift(x) for x in S.asarray(v['r_cyl']).ravel()]

        def vec(t):
            o = np.empty((r.size,), dtype=object)
            for i in range(r.size):
                o[i] = X.fn('stub_discr%d_%s_%d' % (len(par), t, i), *par)
            return o
        misc = {k: vec(k) for k in ('a', 'a_prime', 'h')}
        misc['Gamma_cp'], misc['r_cp'] = g, r
        if v['bSwirl']:
            return vec('gt'), vec('gl'), X.fn('stub_discr%d_Gr' % len(par), *par), misc
        return vec('gt'), None, None, misc
    return f
