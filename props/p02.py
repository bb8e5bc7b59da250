"""P02: harmonic thermodynamic functions against exact oscillator statistics."""
import numpy as np
from hypothesis import strategies as st
from quantas.utils.physics import statistical_mechanics as SM
from quantas.utils.physics import thermodynamics as TD
from vlib.core import Sub, check, close, fail

RULE = ('Generated: up to 6 temperatures (0 K, and 1e-3..1e5 K), up to 4 bands x 6 modes x 4 volumes of '
        'frequencies (positive over 7 decades, zero, negative) and positive weights. Non-trivial: at least one '
        'positive temperature together with at least one positive frequency whose h*nu/kT is between 1e-6 and 700.')
ASSUMPTIONS = ['reference evaluated in double precision with expm1/log1p; comparison allows the rounding of '
               'log(1-exp(-x)) for very small x']

H, KB, NA = 6.62607015e-34, 1.380649e-23, 6.02214076e23
R = NA * KB

temps = st.one_of(st.just(0.), st.floats(1., 3000.), st.floats(1e-3, 1e5), st.sampled_from([298.15, 1e-3, 1e5, 300., 10.]))
freqs = st.one_of(
    st.floats(1e11, 1.2e14), st.floats(1e11, 1.2e14), st.floats(1e8, 3e14),
    st.floats(-1e14, 0.), st.just(0.), st.sampled_from([1e13, 5e12, 2.5e13]))


@st.composite
def case_strategy(draw):
    nt = draw(st.integers(1, 6))
    nb, nf, nv = draw(st.integers(1, 4)), draw(st.integers(1, 6)), draw(st.integers(1, 4))
    pool = draw(st.lists(freqs, min_size=1, max_size=12))
    n = nb * nf * nv
    idx = draw(st.lists(st.integers(0, len(pool) - 1), min_size=n, max_size=n))
    return {'T': draw(st.lists(temps, min_size=nt, max_size=nt)),
            'shape': [nb, nf, nv], 'pool': pool, 'idx': idx,
            'w': draw(st.lists(st.one_of(st.integers(1, 48).map(float), st.floats(1e-3, 50.)),
                               min_size=nb, max_size=nb)),
            'U0': draw(st.lists(st.floats(-1e6, 1e3), min_size=nv, max_size=nv))}


def unpack(case):
    T = np.array(case['T'], dtype=float)
    band = np.array([case['pool'][i] for i in case['idx']], dtype=float).reshape(case['shape'])
    w = np.array(case['w'], dtype=float)
    return T, band, w


def reference(T, band, w):
    """dict of (nt, nv) arrays and matching absolute rounding allowances."""
    nt, nv = T.size, band.shape[2]
    shape = (nt,) + band.shape
    t = T[:, None, None, None]
    f = np.broadcast_to(band, shape)
    pos = f > 0
    fp = np.where(pos, f, 1.)
    warm = np.broadcast_to(t > 0, shape)
    tt = np.where(t > 0, t, 1.)
    with np.errstate(all='ignore'):
        x = H * fp / (KB * tt)
        n = np.where(x > 700, 0., 1. / np.expm1(np.minimum(x, 700.)))
        big = np.exp(-np.minimum(x, 740.))
        l = np.where(x < 0.69, np.log(-np.expm1(-x)), np.log1p(-np.minimum(big, 0.6)))
        # x^2 e^x/(e^x-1)^2 = (x/(2 sinh(x/2)))^2
        cv = np.where(x > 1400, 0., (x / (2. * np.sinh(np.minimum(x, 1400.) / 2.))) ** 2)
    on = pos & warm
    zpe = np.where(pos, 1e-3 * NA * H * fp * 0.5, 0.)
    uth = np.where(on, 1e-3 * R * tt * x * n, 0.)
    s = np.where(on, R * (x * n - l), 0.)
    c = np.where(on, R * cv, 0.)
    fv = zpe + np.where(on, 1e-3 * R * tt * l, 0.)
    eps = 2.3e-16
    es = np.where(on, R * (8 * eps + 8 * eps / x), 0.)
    ef = np.where(on, 1e-3 * R * tt * (8 * eps + 8 * eps / x), 0.)
    W = w[None, :, None, None]

    def tot(a):
        return (a * W).sum(axis=(1, 2))
    ref = {'zpe': tot(zpe), 'uth': tot(uth), 's': tot(s), 'cv': tot(c), 'f': tot(fv)}
    err = {'zpe': 0., 'uth': 1e-16 * 1e-3 * R * w.sum() * band.shape[1] * T[:, None], 's': tot(es), 'cv': 1e-14 * R * w.sum() * band.shape[1],
           'f': tot(ef), 'fscale': tot(np.abs(zpe) + np.abs(np.where(on, 1e-3 * R * tt * l, 0.)))}
    modes = (W * on).sum(axis=(1, 2))
    return ref, err, modes, x[on] if on.any() else np.array([])


def call(T, band, w):
    return {'zpe': np.asarray(SM.zero_point_energy(T, band, w)), 'uth': np.asarray(SM.thermal_energy(T, band, w)),
            's': np.asarray(SM.entropy(T, band, w)), 'cv': np.asarray(SM.isochoric_heat_capacity(T, band, w)),
            'f': np.asarray(SM.vibrational_free_energy(T, band, w))}


def body(case, ctx):
    T, band, w = unpack(case)
    ref, err, modes, x = reference(T, band, w)
    got = call(T.copy(), band.copy(), w.copy())
    names = {'zpe': 'zero-point energy', 'uth': 'thermal energy', 's': 'entropy', 'cv': 'heat capacity',
             'f': 'vibrational free energy'}
    for k in ref:
        at = err[k]
        sc = err['fscale'] if k == 'f' else None
        close(got[k], ref[k], rtol=2e-12, atol=at, scale=sc, what=names[k])
    # identities, from the reported numbers alone
    close(got['zpe'] + got['uth'] - 1e-3 * T[:, None] * got['s'], got['f'], rtol=1e-11,
          scale=np.abs(got['zpe']) + np.abs(got['uth']) + 1e-3 * T[:, None] * np.abs(got['s']),
          atol=2 * err['f'] + 1e-3 * T[:, None] * err['s'], what='F = U - TS')
    check(np.all(got['s'] >= -2 * err['s']), 'negative entropy')
    check(np.all(got['cv'] >= 0), 'negative heat capacity')
    check(np.all(got['cv'] <= R * modes * (1 + 1e-11) + 1e-300), 'heat capacity above kB per mode')
    U0 = np.array(case['U0'])
    close(SM.internal_energy(U0, np.ascontiguousarray(got['zpe'][0]), np.ascontiguousarray(got['uth'])),
          U0[None, :] + got['zpe'][0][None, :] + got['uth'], rtol=1e-13,
          scale=np.abs(U0)[None, :] + got['zpe'] + got['uth'], what='internal energy')
    close(SM.free_energy(U0, np.ascontiguousarray(got['f'])), U0[None, :] + got['f'], rtol=1e-13,
          scale=np.abs(U0)[None, :] + np.abs(got['f']), what='free energy')
    if np.any(T == 0):
        ctx.note('T=0')
    if np.any(band <= 0):
        ctx.note('non-positive frequency')
    if x.size and x.max() > 700:
        ctx.note('x>700')
    if x.size and x.min() < 1e-4:
        ctx.note('x<1e-4')
    if len(w) > 1:
        ctx.note('several bands')
    ctx.interesting(x.size and bool(np.any((x > 1e-6) & (x < 700))))


# ---- additivity, order, derivatives on the reported values --------------
@st.composite
def meta_case(draw):
    c = draw(case_strategy())
    nb, nf, nv = c['shape']
    c['perm_b'] = draw(st.permutations(range(nb)))
    c['perm_f'] = draw(st.permutations(range(nf)))
    c['perm_v'] = draw(st.permutations(range(nv)))
    c['cut'] = draw(st.integers(0, nf))
    return c


def meta_body(case, ctx):
    T, band, w = unpack(case)
    full = call(T, band, w)
    _, err, _, x = reference(T, band, w)
    pb, pf, pv = case['perm_b'], case['perm_f'], case['perm_v']
    other = call(T, np.ascontiguousarray(band[pb][:, pf][:, :, pv]), np.ascontiguousarray(w[pb]))
    for k in full:
        sc = np.abs(full[k]) if k != 'f' else err['fscale']
        close(other[k][:, np.argsort(pv)], full[k], rtol=1e-12, scale=sc, atol=1e-13, what='order of modes/bands: ' + k)
    # bands one by one and modes one by one
    cut = case['cut']
    if 0 < cut < band.shape[1]:
        a = call(T, np.ascontiguousarray(band[:, :cut]), w)
        b = call(T, np.ascontiguousarray(band[:, cut:]), w)
        for k in full:
            sc = np.abs(full[k]) if k != 'f' else err['fscale']
            close(a[k] + b[k], full[k], rtol=1e-12, scale=sc, atol=1e-13, what='additivity over modes: ' + k)
        ctx.note('split modes')
    one = None
    for i in range(band.shape[0]):
        r = call(T, np.ascontiguousarray(band[i:i + 1]), np.ones(1))
        one = {k: r[k] * w[i] + (one[k] if one else 0.) for k in r}
    for k in full:
        sc = np.abs(full[k]) if k != 'f' else err['fscale']
        close(one[k], full[k], rtol=1e-12, scale=sc, atol=1e-13, what='weighted sum over bands: ' + k)
    ctx.interesting(band.shape[0] > 1 and x.size)


@st.composite
def deriv_case(draw):
    return {'T': draw(st.floats(5., 5000.)), 'f': draw(st.lists(st.floats(5e11, 1e14), min_size=1, max_size=5)),
            'w': draw(st.floats(0.1, 20.))}


def deriv_body(case, ctx):
    T = case['T']
    band = np.array(case['f']).reshape(1, -1, 1)
    w = np.array([case['w']])
    # Richardson-extrapolated central difference, step relative to T
    h = 0.02 * T
    grid = np.array([T - h, T - h / 2, T, T + h / 2, T + h])
    r = call(grid, band, w)

    def d(y):
        y = y[:, 0]
        d1 = (y[4] - y[0]) / (2 * h)
        d2 = (y[3] - y[1]) / h
        return (4 * d2 - d1) / 3, abs(d2 - d1)
    scale = R * w[0] * band.size
    dF, e1 = d(r['f'])
    dU, e2 = d(r['uth'])
    dS, e3 = d(r['s'])
    S, C = r['s'][2, 0], r['cv'][2, 0]
    close(-1e3 * dF, S, rtol=1e-5, atol=1e3 * e1 * 0.1 + 1e-9 * scale, what='S = -dF/dT')
    close(1e3 * dU, C, rtol=1e-5, atol=1e3 * e2 * 0.1 + 1e-9 * scale, what='Cv = dU/dT')
    close(T * dS, C, rtol=1e-5, atol=T * e3 * 0.1 + 1e-9 * scale, what='Cv = T dS/dT')
    ctx.interesting(C > 1e-3 * scale)


# ---- thermodynamic potentials used by the quasi-harmonic part ------------
@st.composite
def td_case(draw):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 5))

    def mat(s):
        return draw(st.lists(st.lists(s, min_size=m, max_size=m), min_size=n, max_size=n))
    return {'T': draw(st.lists(st.one_of(st.just(0.), st.floats(1., 3000.)), min_size=n, max_size=n)),
            'p': draw(st.lists(st.floats(-1e10, 2e11), min_size=m, max_size=m)),
            'V': mat(st.floats(1e-29, 5e-27)), 'U': mat(st.floats(-1e6, 1e5)),
            'KT': mat(st.floats(1., 600.)), 'alpha': mat(st.floats(-1e-5, 2e-4)),
            'Cv': mat(st.one_of(st.just(0.), st.floats(1., 2000.))),
            'pf': draw(st.sampled_from([1e9, 1e8]))}


def td_body(case, ctx):
    T, p = np.array(case['T']), np.array(case['p'])
    V, U, KT, al, Cv = [np.array(case[k]) for k in ('V', 'U', 'KT', 'alpha', 'Cv')]
    pv = p[None, :] * V * NA * 1e-3
    close(TD.enthalpy(V, p, U), U + pv, rtol=1e-12, scale=np.abs(U) + np.abs(pv), what='enthalpy')
    close(TD.gibbs(V, p, U), U + pv, rtol=1e-12, scale=np.abs(U) + np.abs(pv), what='Gibbs energy')
    with np.errstate(all='ignore'):
        k = case['pf'] * KT
        g = np.where(Cv == 0, 0., al * k * V / (Cv / NA))
        ks = np.where((Cv == 0) | (T[:, None] == 0), KT, KT + (al * k) ** 2 * V * T[:, None] / (Cv / NA) / case['pf'])
    close(TD.gruneisen_parameter(V, np.ascontiguousarray(k), al, Cv), g, rtol=1e-12, what='Grueneisen parameter')
    close(TD.adiabatic_bulk_modulus(T, V, KT, al, Cv, case['pf']), ks, rtol=1e-12, what='adiabatic bulk modulus')
    ctx.interesting(np.any(Cv > 0) and np.any(al != 0) and V.size > 1)


SUBS = [
    Sub('oscillators', case_strategy, body, quick=1000, thorough=15000, shards=(3, 6)),
    Sub('additivity', meta_case, meta_body, quick=600, thorough=8000, shards=(2, 4)),
    Sub('derivatives', deriv_case, deriv_body, quick=500, thorough=8000, shards=(1, 2)),
    Sub('potentials', td_case, td_body, quick=500, thorough=6000, shards=(1, 2)),
]
