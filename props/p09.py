"""P09: pressure equations of state mean what their parameters say."""
import numpy as np
from hypothesis import strategies as st
from quantas.eosfit.utils import pv_eos as PV
from vlib.core import Sub, check, close

RULE = ('Generated: each of the five formulations and each of its orders, volumetric and axial, K0 2-900, K\' 1.5-9 '
        '(three times that for axes), K\'\' between -3 and 1 times K\'/K0, V0 1-5000, volumes 0.8-1.1 V0, parameters '
        'given as lists or arrays. Non-trivial: at least two volumes more than 1% away from V0.')
ASSUMPTIONS = ['derivatives at V0 are taken from the returned pressures by a degree-9 fit over +-3% in volume',
               'in axial fits the axis length takes the place of the volume: M0 = -a dP/da, M\' = dM/dP']

CLASSES = {'murnaghan': (PV.Murnaghan, [3]), 'bm': (PV.BirchMurnaghan, [2, 3, 4]), 'ns': (PV.NaturalStrain, [2, 3, 4]),
           'vinet': (PV.Vinet, [2, 3]), 'tait': (PV.Tait, [2, 3, 4])}
KP_IMPLIED = {'bm': 4., 'ns': 2., 'vinet': 1., 'tait': 4.}


def implied(name, order, linear, K0, KP, KPP):
    """K' and K'' in force."""
    if order == 2:
        KP = KP_IMPLIED[name] * (3. if linear else 1.)
    if name == 'murnaghan':
        KPP = 0.
    elif name == 'vinet':
        KPP = -((KP / 2.) ** 2 + KP / 2. - 19. / 36.) / K0
    elif order < 4:
        if name == 'bm':
            KPP = -((KP - 4.) * (KP - 3.) + 35. / 9.) / K0
        elif name == 'ns':
            KPP = -(1. + (KP - 2.) + (KP - 2.) ** 2) / K0
        elif name == 'tait':
            KPP = -KP / K0
    return KP, KPP


def pressure(name, K0, KP, KPP, V0, V):
    x = V / V0
    if name == 'murnaghan':
        return K0 * np.expm1(-KP * np.log(x)) / KP
    if name == 'bm':
        f = (np.cbrt(1. / x) ** 2 - 1.) / 2.
        return 3. * K0 * f * (1. + 2. * f) ** 2.5 * (
            1. + 1.5 * (KP - 4.) * f + 1.5 * (K0 * KPP + (KP - 4.) * (KP - 3.) + 35. / 9.) * f * f)
    if name == 'ns':
        f = -np.log(x) / 3.
        return 3. * K0 / x * f * (1. + 1.5 * (KP - 2.) * f +
                                  1.5 * (1. + K0 * KPP + (KP - 2.) + (KP - 2.) ** 2) * f * f)
    if name == 'vinet':
        c = np.cbrt(x)
        return 3. * K0 * (1. - c) / c ** 2 * np.exp(1.5 * (KP - 1.) * (1. - c))
    if name == 'tait':
        a = (1. + KP) / (1. + KP + K0 * KPP)
        b = KP / K0 - KPP / (1. + KP)
        c = (1. + KP + K0 * KPP) / (KP ** 2 + KP - K0 * KPP)
        return (((x + a - 1.) / a) ** (-1. / c) - 1.) / b
    raise KeyError(name)


@st.composite
def params(draw, orders=None):
    name = draw(st.sampled_from(sorted(CLASSES)))
    order = draw(st.sampled_from(CLASSES[name][1]))
    linear = draw(st.booleans())
    m = 3. if linear else 1.
    K0, KP = draw(st.floats(2., 900.)) * m, draw(st.floats(1.5, 9.)) * m
    r = draw(st.floats(-3., 1.) if name != 'tait' else st.floats(-1.15, 0.8))
    return {'eos': name, 'order': order, 'linear': linear, 'K0': K0, 'KP': KP, 'KPP': r * KP / K0,
            'V0': draw(st.floats(1., 30.) if linear else st.floats(5., 5000.))}


@st.composite
def form_case(draw):
    c = draw(params())
    w = 3. if c['linear'] else 1.
    c['x'] = draw(st.lists(st.one_of(st.floats(1 - 0.2 / w, 1 + 0.1 / w), st.just(1.)), min_size=2, max_size=8))
    c['dofit'] = draw(st.booleans())
    c['plist'] = draw(st.booleans())
    return c


def form_body(c, ctx):
    eos = CLASSES[c['eos']][0]()
    p0 = [c['K0'], c['KP'], c['KPP'], c['V0']]
    p = list(p0) if c['plist'] else np.array(p0)
    V = np.array(c['x']) * c['V0']
    Vc = V.copy()
    if c['dofit']:
        KP, KPP = implied(c['eos'], c['order'], c['linear'], c['K0'], c['KP'], c['KPP'])
    else:
        KP, KPP = c['KP'], c['KPP']
        if c['eos'] in ('murnaghan', 'vinet'):
            KPP = implied(c['eos'], 3, c['linear'], c['K0'], KP, KPP)[1]
    P = eos.eos(p, V, order=c['order'], linear=c['linear'], dofit=c['dofit'])
    want = pressure(c['eos'], c['K0'], KP, KPP, c['V0'], V)
    close(P, want, rtol=1e-9, atol=1e-11 * c['K0'], what='P(V)')
    check(np.array_equal(V, Vc), 'volumes modified')
    check(p[0] == p0[0] and p[3] == p0[3], 'K0 or V0 modified by an evaluation: {} -> {}', p0, list(p))
    if c['dofit']:
        close(p[1], KP, rtol=1e-12, what="K' in force")
        close(p[2], KPP, rtol=1e-10, atol=1e-12 / c['K0'], what="K'' in force")
    else:
        check(p[1] == p0[1], "K' modified by a plain evaluation")
    ctx.note('%s %d%s' % (c['eos'], c['order'], ' axial' if c['linear'] else ''))
    ctx.interesting(np.sum(np.abs(np.array(c['x']) - 1) > 0.01 / (3 if c['linear'] else 1)) >= 2)


def meaning_body(c, ctx):
    """Value, first, second and third derivative at V0 of the returned curve."""
    eos = CLASSES[c['eos']][0]()
    p = np.array([c['K0'], c['KP'], c['KPP'], c['V0']])
    h = 0.03 / (3. if c['linear'] else 1.)
    t = h * np.cos(np.pi * (np.arange(24) + 0.5) / 24)
    P = np.asarray(eos.eos(p, c['V0'] * (1. + t), order=c['order'], linear=c['linear'], dofit=True)) / c['K0']
    KP, KPP = implied(c['eos'], c['order'], c['linear'], c['K0'], c['KP'], c['KPP'])
    co = np.polynomial.polynomial.polyfit(t / h, P, 9) / h ** np.arange(10)
    d1, d2, d3 = co[1], 2 * co[2], 6 * co[3]
    m = 3. if c['linear'] else 1.
    close(co[0], 0., atol=1e-9, what='pressure at V0')
    close(-d1, 1., rtol=1e-6, what='K0 from the curve (relative)')
    # with x=V/V0 and P in units of K0: K = -x P', K' = dK/dx / P', ...
    k1 = (-d1 - d2) / d1
    # K'(x) = -(P' + x P'')/P' -> dK'/dx at x=1
    num, dnum = -(d1 + d2), -(2 * d2 + d3)
    k2 = (dnum * d1 - num * d2) / d1 ** 2 / d1
    close(k1, KP, rtol=1e-4, atol=1e-4 * m, what="K' from the curve")
    sc = KP ** 2 + 1. + abs(KPP * c['K0'])
    close(k2, KPP * c['K0'], atol=2e-3 * sc, what="K0*K'' from the curve")
    q = eos.eos(p, np.array([c['V0'], c['V0'] * 0.999]), order=c['order'], linear=c['linear'], dofit=True)
    check(abs(q[0]) <= 1e-12 * c['K0'] and q[1] > 0, 'pressure not increasing on compression from V0: {}', list(q))
    ctx.note('%s %d%s' % (c['eos'], c['order'], ' axial' if c['linear'] else ''))
    ctx.interesting(True)


# ---- normalised pressures (f-F plots) ------------------------------------
@st.composite
def norm_case(draw):
    name = draw(st.sampled_from(['bm', 'ns', 'vinet']))
    order = draw(st.sampled_from([2, 3]))
    n = draw(st.integers(3, 12))
    return {'eos': name, 'order': order, 'K0': draw(st.floats(5., 700.)), 'KP': draw(st.floats(1.5, 8.)),
            'V0': draw(st.floats(5., 5000.)), 'plist': draw(st.booleans()),
            'x': draw(st.lists(st.one_of(st.floats(0.78, 0.985), st.floats(0.78, 0.985), st.floats(1.015, 1.1)), min_size=n, max_size=n,
                               unique=True)),
            'sort': draw(st.booleans())}


def norm_body(c, ctx):
    name, order, K0, V0 = c['eos'], c['order'], c['K0'], c['V0']
    KP, KPP = implied(name, order, False, K0, c['KP'], 0.)
    x = sorted(c['x'], reverse=True) if c['sort'] else c['x']
    V = V0 * np.array([1.] + list(x))
    P = pressure(name, K0, KP, KPP, V0, V)
    P[0] = 0.
    p0 = [K0, KP, KPP, V0]
    p = list(p0) if c['plist'] else np.array(p0)
    Vc, Pc = V.copy(), P.copy()
    eos = CLASSES[name][0]()
    with np.errstate(all='ignore'):
        f, NP, fo, NPo, sf, sNP = eos.normalize(p, V, P, order=order)
    check(list(p) == p0, 'parameters modified by normalize: {} -> {}', p0, list(p))
    check(np.array_equal(V, Vc) and np.array_equal(P, Pc), 'data modified by normalize')
    x = V[1:] / V0
    strain = {'bm': (np.cbrt(1 / x) ** 2 - 1) / 2, 'ns': -np.log(x) / 3, 'vinet': 1 - np.cbrt(x)}[name]
    want = {'bm': K0 * (1 + 1.5 * (KP - 4.) * strain), 'ns': K0 * (1 + 1.5 * (KP - 2.) * strain),
            'vinet': K0 * np.exp(1.5 * (KP - 1.) * strain)}[name]
    close(fo, strain, rtol=1e-9, atol=1e-13, what='strain of the data')
    close(NPo, want, rtol=1e-9, what='normalised pressure of the data')
    close(f[1:], strain, rtol=1e-9, atol=1e-13, what='strain of the curve')
    close(NP[1:], want, rtol=1e-9, what='normalised pressure of the curve')
    ctx.interesting(order == 3 or name != 'vinet')
    ctx.note('%s order %d' % (name, order))


SUBS = [
    Sub('forms', form_case, form_body, quick=2000, thorough=20000, shards=(2, 4)),
    Sub('meaning', params, meaning_body, quick=1500, thorough=15000, shards=(2, 4)),
    Sub('normalised', norm_case, norm_body, quick=800, thorough=8000, shards=(1, 2)),
]
