"""P08: energy equations of state."""
import numpy as np
from hypothesis import strategies as st
from quantas.qha.utils.ev_eos import EnergyEOS
from vlib import phin
from vlib.core import Sub, check, close, fail

RULE = ('Generated: parameter sets (K0 3-700 GPa, K\' 1.2-9, V0 8-6000 A^3, E0 0 to -1e4 Ha) in every energy/length '
        'unit, volumes between 0.75 and 1.25 V0; fits of 4-16 exact points spanning the minimum, equally spaced or '
        'not, in any order. Non-trivial: more than three distinct volumes at least 1% apart from V0.')
ASSUMPTIONS = ['fit tolerance grows with the rounding noise of the energies relative to the energy differences']

TAGS = ['murnaghan', 'birchmurnaghan', 'vinet', 'pouriertarantola']


def pressure_form(tag, K0, KP, V0, V):
    """P(V) written from the literature definitions."""
    x = V / V0
    if tag == 'murnaghan':
        return K0 / KP * (np.exp(-KP * np.log(x)) - 1.)
    if tag == 'birchmurnaghan':
        c = np.cbrt(1. / x)
        return 1.5 * K0 * (c ** 7 - c ** 5) * (1. + 0.75 * (KP - 4.) * (c ** 2 - 1.))
    if tag == 'vinet':
        c = np.cbrt(x)
        return 3. * K0 * (1. - c) / c ** 2 * np.exp(1.5 * (KP - 1.) * (1. - c))
    if tag == 'pouriertarantola':
        l = -np.log(x)
        return K0 / x * (l + 0.5 * (KP - 2.) * l ** 2)
    raise KeyError(tag)


_X, _W = np.polynomial.legendre.leggauss(40)


def energy_form(tag, E0, K0, KP, V0, V):
    """E0 - integral of P from V0 to V (Gauss-Legendre)."""
    V = np.atleast_1d(np.asarray(V, dtype=float))
    half = (V - V0) / 2.
    nodes = V0 + half[:, None] * (1. + _X[None, :])
    return E0 - half * (pressure_form(tag, K0, KP, V0, nodes) * _W[None, :]).sum(axis=1)


params = st.fixed_dictionaries({
    'tag': st.sampled_from(TAGS),
    'K0': st.floats(3., 700.), 'KP': st.floats(1.2, 9.), 'V0': st.floats(8., 6000.),
    'E0': st.one_of(st.floats(-1e4, -0.5), st.just(0.), st.floats(-300., -20.)),
    'eunit': st.sampled_from(['Ha', 'eV', 'Ry']), 'lunit': st.sampled_from(['A', 'bohr'])})


def scaled(c):
    g = phin.GPA(c['eunit'], c['lunit'])
    return (c['E0'] * phin.EUNIT[c['eunit']], c['K0'] / g, c['KP'], c['V0'] * phin.LUNIT[c['lunit']] ** 3, g)


@st.composite
def form_case(draw):
    c = draw(params)
    c['x'] = draw(st.lists(st.one_of(st.floats(0.75, 1.25), st.just(1.)), min_size=1, max_size=10))
    return c


def form_body(c, ctx):
    E0, K0, KP, V0, g = scaled(c)
    V = np.array(c['x']) * V0
    eos = EnergyEOS()
    f = getattr(eos, c['tag'])
    scale = K0 * V0
    close(f(V.copy(), E0, K0, KP, V0), energy_form(c['tag'], E0, K0, KP, V0, V), rtol=1e-13,
          atol=1e-12 * scale * max(1., 1. / (KP - 1.) ** 2) + 1e-15, scale=abs(E0), what='E(V) of ' + c['tag'])
    p = eos.pressure(c['tag'], np.array([E0, c['K0'], KP, V0]), V.copy())
    close(np.ravel(p), pressure_form(c['tag'], c['K0'], KP, V0, V), rtol=1e-10, atol=1e-11 * c['K0'], what='P(V) of ' + c['tag'])
    # the energy never falls below its value at V0 within the physical range
    e = f(V, 0., 1., KP, V0)
    near = np.abs(V / V0 - 1) < 0.1
    check(np.all(e[near] >= -1e-12 * V0 / (KP - 1.) ** 2), 'energy below the minimum at V0')
    ctx.note(c['tag'])
    ctx.interesting(len(set(c['x'])) > 3 and np.sum(np.abs(np.array(c['x']) - 1) > 0.01) > 2)


@st.composite
def deriv_case(draw):
    c = draw(params)
    c['h'] = draw(st.sampled_from([1e-3, 2e-3]))
    return c


def deriv_body(c, ctx):
    """Volume, modulus and its pressure derivative at the minimum, from values of E alone."""
    _, K0, KP, V0, g = scaled(c)
    f = getattr(EnergyEOS(), c['tag'])
    x = np.linspace(-0.02, 0.02, 11)
    E = np.asarray(f(V0 * (1 + x), 0., K0, KP, V0)) / (K0 * V0)
    co = np.polynomial.polynomial.polyfit(x, E, 7)
    # E/(K0 V0) = x^2/2 - (K'+1) x^3/6 + ...
    t = 1e-9 * max(1., 1. / (KP - 1.) ** 2)
    close(co[1], 0., atol=1e-6 * t * 1e3 + 1e-8, what='slope at V0')
    close(2 * co[2], 1., atol=1e-5, what='curvature at V0 (bulk modulus)')
    close(-6 * co[3] - 1., KP, atol=2e-3 + 1e-3 * KP, what="third derivative at V0 (K')")
    ctx.note(c['tag'])
    ctx.interesting(True)


@st.composite
def fit_case(draw):
    c = draw(params)
    c['KP'] = draw(st.floats(1.8, 8.))
    n = draw(st.integers(4, 16))
    lo, hi = draw(st.floats(0.82, 0.97)), draw(st.floats(1.005, 1.12))
    if draw(st.booleans()):
        x = np.linspace(lo, hi, n)
    else:
        gaps = np.array(draw(st.lists(st.floats(0.3, 1.), min_size=n - 1, max_size=n - 1)))
        x = lo + (hi - lo) * np.concatenate([[0.], np.cumsum(gaps) / gaps.sum()])
    c['x'] = x.tolist()
    c['perm'] = draw(st.permutations(range(n)))
    return c


def fit_body(c, ctx):
    E0, K0, KP, V0, g = scaled(c)
    x = np.array(c['x'])[c['perm']]
    V = V0 * x
    E = energy_form(c['tag'], E0, K0, KP, V0, V)
    Vc, Ec = V.copy(), E.copy()
    eos = EnergyEOS()
    p, err = eos.fit(c['tag'], V, E)
    check(np.array_equal(V, Vc) and np.array_equal(E, Ec), 'the data were modified by the fit')
    width = np.ptp(x)
    noise = (2.3e-16 * abs(E0) + 1e-16 * K0 * V0) / (K0 * V0)
    n2 = noise / min(width, 2 * np.max(np.abs(x - 1))) ** 2
    n3 = n2 / width
    if 300 * n3 / width > 0.02:
        ctx.note('too noisy to decide')
        return
    check(np.all(np.isfinite(p)), 'fit gave {}', p.tolist())
    close(p[3], V0, rtol=5e-5 + 300 * n2 * 1., what='fitted V0')
    close(p[1], K0, rtol=2e-3 + 300 * n3, what='fitted K0')
    close(p[2], KP, atol=5e-2 + 600 * n3 / width, what="fitted K'")
    close(p[0], E0, rtol=1e-12, atol=1e-4 * np.ptp(E) + 30 * noise * K0 * V0, what='fitted E0')
    # data reproduced
    r = np.asarray(getattr(eos, c['tag'])(V, *p)) - E
    check(np.max(np.abs(r)) <= 1e-4 * np.ptp(E) + 30 * noise * K0 * V0, 'data not reproduced: residual {}',
          float(np.max(np.abs(r))))
    ctx.note('%s fit' % c['tag'])
    if len(x) < 6:
        ctx.note('4 or 5 points')
    ctx.interesting(np.sum(np.abs(x - 1) > 0.01) > 2)


SUBS = [
    Sub('forms', form_case, form_body, quick=1500, thorough=20000, shards=(2, 4)),
    Sub('minimum', deriv_case, deriv_body, quick=800, thorough=10000, shards=(1, 2)),
    Sub('fit', fit_case, fit_body, quick=700, thorough=8000, shards=(4, 8)),
]
