"""P06: thermodynamic identities of quasi-harmonic result sets."""
import os
import re
import numpy as np
import h5py
from hypothesis import strategies as st
from vlib import phin, qharef as Q
from vlib.core import Sub, check, close
from props import p05

RULE = ('Generated: quasi-harmonic runs of model crystals at 50 to 60 (and 2 to 49) temperatures and 1-3 pressures, in every energy, length, '
        'temperature and pressure unit, both schemes, both minimisations; plus the two derivative kernels on arbitrary arrays. '
        'Oracle: the identities between the datasets of the exported file, each converted to SI by the unit the file declares. '
        'Non-trivial: at least 20 (T,P) points with T>0 and a non-zero expansion.')
ASSUMPTIONS = ['alpha is accepted when it lies between the backward and forward difference quotients of the reported volumes',
               'per-cell energies are converted to molar ones with CODATA 2018, allowed 1e-7']

UE = {'Ha': phin.HARTREE_J, 'eV': phin.EV_J, 'Ry': phin.RY_J}
UL = {'A': 1e-10, 'bohr': 1e-10 * phin.BOHR_A}
UP = {'GPa': 1e9, 'kbar': 1e8}


@st.composite
def case_strategy(draw, few=False):
    c = draw(Q.crystal(max_nq=2))
    # moderate Grueneisen parameters and thermal pressures keep the equilibrium inside the sampled volumes
    c['permv'] = draw(st.one_of(st.none(), st.none(), st.permutations(range(len(c['x'])))))
    c['scheme'] = draw(st.sampled_from(['freq', 'td']))
    c['min'] = draw(st.sampled_from(['poly', 'poly', 'eos']))
    c['edeg'], c['fdeg'] = draw(st.integers(3, 4)), draw(st.integers(2, 3))
    c['eos'] = draw(st.sampled_from(Q.EOS))
    c['eunit'] = draw(st.sampled_from(['Ha', 'eV', 'Ry']))
    c['lunit'] = draw(st.sampled_from(['A', 'bohr']))
    c['tunit'] = draw(st.sampled_from(['K', 'C']))
    c['punit'] = draw(st.sampled_from(['GPa', 'kbar']))
    nt = draw(st.sampled_from([2, 3, 5, 20, 48, 49])) if few else draw(st.integers(50, 60))
    dt = draw(st.one_of(st.integers(1, 12).map(float), st.sampled_from([2.5, 0.5, 7.5])))
    t0 = draw(st.sampled_from([0., 0., 5., 300., 123.5]))
    c['T'] = [t0, nt, dt]
    np_ = draw(st.integers(1, 3))
    dp = round(c['K0'] * draw(st.floats(0.002, 0.02)), 2)
    c['P'] = [draw(st.sampled_from([0., 0., dp, -dp, -2. * dp])), np_, dp]
    return c


def unit_of(dset):
    u = dset.attrs['unit']
    m = re.match(r'^(m?)(Ha|eV|Ry)$', u)
    if m:
        return 'energy', UE[m.group(2)] * (1e-3 if m.group(1) else 1.)
    if re.sub(r'\^3$', '', u) in UL:
        return 'length', UL[re.sub(r'\^3$', '', u)]
    if u in UP:
        return 'pressure', UP[u]
    if u in ('K^-1', 'C^-1'):
        return 'expansion', 1.
    if u in ('K', 'C'):
        return 'temperature', u
    return 'none', 1.


KIND = {'VT': 'length', 'KT': 'pressure', 'KS': 'pressure', 'P': 'pressure', 'alphaV': 'expansion', 'T': 'temperature',
        'Kp': 'none', 'gruneisen': 'none'}


def body(c, ctx):
    path = os.path.join(ctx.scratch, 'q.yaml')
    Q.write(c, path, eunit=c['eunit'], lunit=c['lunit'], permv=c['permv'])
    pu = phin.PUNIT[c['punit']]
    t0, nt, dt = c['T']
    if c['tunit'] == 'C':
        t0 -= 273.15
    p0, np_, dp = c['P'][0] * pu, c['P'][1], c['P'][2] * pu
    s = Q.settings((t0, t0 + dt * (nt - 1), dt), (p0, p0 + dp * (np_ - 1), dp), qha_scheme=c['scheme'], minimization=c['min'],
                   edeg=c['edeg'], fdeg=c['fdeg'], eos_function=c['eos'], energy_unit=c['eunit'], lenght_unit=c['lunit'],
                   temperature_unit=c['tunit'], pressure_unit=c['punit'])
    calc, err = Q.run(path, s)
    check(err is None, 'the run failed: {}', err)
    h5 = os.path.join(ctx.scratch, 'q.hdf5')
    calc.export_hdf5(h5)
    R = {}
    with h5py.File(h5, 'r') as f:
        for k in f.keys():
            kind, u = unit_of(f[k])
            check(kind == KIND.get(k, 'energy'), '{} is declared in {!r}', k, f[k].attrs['unit'])
            v = np.asarray(f[k][()], dtype=float)
            if kind == 'temperature':
                v = v + 273.15 if u == 'C' else v
                check(u == c['tunit'], 'temperatures declared in {}', u)
            elif k == 'VT':
                v = v * u ** 3
            else:
                v = v * u
            R[k] = v
        check(f['H'].attrs['unit'] == c['eunit'] and f['P'].attrs['unit'] == c['punit'], 'units of the run not declared')
    check(R['T'].shape == (nt,) and R['P'].shape == (np_,), 'axes of {} and {} values', R['T'].size, R['P'].size)
    T = np.where(R['T'] < 1e-9, 0., R['T'])[:, None]
    P = R['P'][None, :]
    V, KT, al = R['VT'], R['KT'], R['alphaV']
    check(all(R[k].shape == V.shape for k in R if k not in 'TP'), 'shapes {}', {k: v.shape for k, v in R.items()})
    ok = np.isfinite(V) & np.isfinite(KT)
    w = '{} {} '.format(c['scheme'], c['min'])
    E = np.abs(R['Utot'])

    def eq(a, b, scale, tol, what):
        m = ok & np.isfinite(a) & np.isfinite(b)
        check(np.array_equal(np.isfinite(a) & ok, np.isfinite(b) & ok), '{}{}: undefined values', w, what)
        close(np.where(m, a, 0.), np.where(m, b, 0.), rtol=tol, atol=np.where(m, scale, 0.), what=w + what)

    eq(R['H'], R['Utot'] + P * V, 1e-12 * E + 1e-8 * np.abs(P * V), 1e-12, 'H = U + PV')
    eq(R['G'], R['F'] + P * V, 1e-12 * E + 1e-8 * np.abs(P * V), 1e-12, 'G = F + PV')
    # the polynomials of F, U and S in V are fitted apart: rounding grows with (V / range)^degree
    rnd = 3e-12 + (2e-15 * (2. / np.ptp(c['x'])) ** c['edeg'] if c['scheme'] == 'td' else 0.)
    eq(R['F'], R['Utot'] - T * R['S'], rnd * E + 1e-7 * np.abs(T * R['S']), 1e-12, 'F = U - TS')
    eq(R['Fvib'], R['Uzp'] + R['Uth'] - T * R['S'], 1e-7 * (np.abs(T * R['S']) + np.abs(R['Uzp'])), 1e-7, 'Fvib = Uzp + Uth - TS')
    # entropy and heat capacity of the interpolated spectrum
    for i in sorted({0, 1, nt // 2, nt - 1}):
        for j in range(np_):
            if not ok[i, j] or not Q.volumes(c)[0] < V[i, j] * 1e30 < Q.volumes(c)[-1]:
                continue
            mod = p05.model_at(c, c['scheme'], c['edeg'], c['fdeg'], T[i, 0], V[i, j] * 1e30, 0.)
            if mod.get('numin', 1.) <= 0.05:
                continue
            for k, n in (('S', 's'), ('Cv', 'cv')):
                close(R[k][i, j], mod[n] * phin.HARTREE_J, rtol=1e-6, atol=1e-12 * phin.HARTREE_J, what='{}{} of the spectrum at T={}'.format(w, k, T[i, 0]))
            ctx.note('spectrum judged')
    if nt < 50:
        # too few temperatures for a derivative: nothing that derives from the expansion is calculated
        for k in ('alphaV', 'Cp-Cv', 'Cp', 'gruneisen'):
            check(not R[k].any(), '{}{} temperatures: {} is {}', w, nt, k, R[k].ravel()[np.flatnonzero(R[k])[:1]])
        check(np.array_equal(R['KS'], KT, equal_nan=True), '{}{} temperatures: KS differs from KT', w, nt)
        ctx.note('few temperatures')
        ctx.interesting(bool(ok.any()))
        return
    # expansion
    d = np.diff(V, axis=0) / dt
    back, forw = np.vstack([d[:1], d]), np.vstack([d, d[-1:]])
    if nt > 2:
        # at the ends a one-sided scheme of higher order extrapolates the slope
        back[0] = d[0] - (d[1] - d[0])
        forw[-1] = d[-1] + (d[-1] - d[-2])
    lo, hi = np.minimum(back, forw), np.maximum(back, forw)
    slack = 1e-6 * np.maximum(np.abs(lo), np.abs(hi)) + 1e-14 * V / dt
    m = ok & np.isfinite(lo)
    m[:-1] &= np.isfinite(V[1:])
    m[1:] &= np.isfinite(V[:-1])
    x = np.where(m, al * V, 0.)
    i = np.argmax(np.where(m, np.maximum(np.where(m, lo, 0) - slack - x, x - np.where(m, hi, 0) - slack), -1.))
    i = np.unravel_index(i, m.shape)
    if m[i]:
        check(lo[i] - slack[i] <= x[i] <= hi[i] + slack[i], '{}alpha V = {} at T={}, between volumes that change by {} to {} per K',
              w, x[i], T[i[0], 0], lo[i], hi[i])
    # heat capacities, per cell
    dC = al ** 2 * KT * V * T
    eq(R['Cp-Cv'], dC, 0., 1e-7, 'Cp - Cv = alpha^2 KT V T')
    eq(R['Cp'], R['Cv'] + R['Cp-Cv'], 1e-12 * (np.abs(R['Cv']) + np.abs(dC)), 0., 'Cp = Cv + (Cp - Cv)')
    kb = Q.KB
    big = ok & (R['Cv'] > 1e-6 * kb)
    z = np.where(big, R['Cv'], 1.)
    gam = al * KT * V / z
    g = R['gruneisen']
    close(np.where(big, g, 0.), np.where(big, gam, 0.), rtol=1e-7, what=w + 'gamma = alpha KT V / Cv')
    close(np.where(big, R['KS'], 0.), np.where(big, KT * (R['Cv'] + dC) / z, 0.), rtol=1e-7, what=w + 'KS = KT Cp / Cv')
    close(np.where(big, R['KS'], 0.), np.where(big, KT * (1. + al * g * T), 0.), rtol=1e-7, what=w + 'KS = KT (1 + alpha gamma T)')
    cold = ok & (T == 0.)
    close(np.where(cold, R['KS'], 0.), np.where(cold, KT, 0.), rtol=1e-12, what=w + 'KS = KT at 0 K')
    # positivity
    Vs, b = Q.volumes(c), Q.bands(c, Q.volumes(c))
    for k in ('S', 'Cv'):
        tol = 0.
        if c['scheme'] == 'td':
            # a polynomial through values that vanish with T may cross zero by as much as it misses them
            tol = np.array([20. * Q.Fit(Vs, Q.harmonic(t, b, c['w'])['s' if k == 'S' else 'cv'], c['edeg']).res for t in T[:, 0]])[:, None]
            tol = tol * phin.HARTREE_J
        else:
            nu = Q.Fit(Vs, b, c['fdeg'])(np.where(ok, V, Vs[0]).ravel())
            soft = ((nu <= 0.) & (b.max(axis=2)[:, :, None] > 0)).any(axis=(0, 1)).reshape(V.shape)
            tol = np.where(soft, np.inf, 0.)
        bad = ok & (R[k] < -tol - 1e-12 * kb)
        check(not bad.any(), '{}{} is negative: {} J/K', w, k, np.min(np.where(bad, R[k], 0.)))
    ctx.note(w + c['tunit'])
    ctx.note('defined {:.0%}'.format(ok.mean() // 0.25 * 0.25))
    ctx.interesting((big & (T > 0.) & (np.abs(al) > 1e-9)).sum() >= 20)


# --- the kernels on arbitrary arrays -----------------------------------------------------------------------------------
@st.composite
def kernel_case(draw):
    n, m = draw(st.integers(1, 6)), draw(st.integers(1, 5))
    return {'n': n, 'm': m, 'seed': draw(st.integers(0, 2 ** 31 - 1)), 'pf': draw(st.sampled_from([1., 1., 1e9, 1e8])),
            'zero': draw(st.integers(0, n)), 'cv0': draw(st.booleans()), 'neg': draw(st.booleans())}


def kernel_body(c, ctx):
    from quantas.utils.physics import thermodynamics as td
    rng = np.random.RandomState(c['seed'])
    n, m = c['n'], c['m']
    T = rng.uniform(1., 2000., n)
    if c['zero'] < n:
        T[c['zero']] = 0.
    V = rng.uniform(1e-29, 1e-27, (n, m))
    KT = rng.uniform(1e9, 4e11, (n, m)) / c['pf']
    al = rng.uniform(1e-6, 1e-4, (n, m)) * (rng.choice([-1., 1.], (n, m)) if c['neg'] else 1.)
    Cv = rng.uniform(0.1, 300., (n, m))
    if c['cv0']:
        Cv[rng.randint(n), rng.randint(m)] = 0.
    KS = np.asarray(td.adiabatic_bulk_modulus(T, V, KT, al, Cv, c['pf']))
    on = Cv > 0
    z = np.where(on, Cv, 1.)
    g = np.asarray(td.gruneisen_parameter(V, KT * c['pf'], al, Cv))
    close(g, np.where(on, al * KT * c['pf'] * V * Q.NA / z, 0.), rtol=1e-7, what='Grueneisen parameter')
    want = np.where(on, KT * (1. + al ** 2 * KT * c['pf'] * V * Q.NA * T[:, None] / z), KT)
    close(KS, want, rtol=1e-7, what='adiabatic bulk modulus')
    U = rng.uniform(-1e6, 1e6, (n, m))
    P = rng.uniform(-1e9, 1e11, m)
    PV = V * P[None, :] * Q.NA * 1e-3
    close(np.asarray(td.enthalpy(V, P, U)), U + PV, rtol=1e-12, atol=1e-7 * np.abs(PV), what='enthalpy')
    close(np.asarray(td.gibbs(V, P, U)), U + PV, rtol=1e-12, atol=1e-7 * np.abs(PV), what='Gibbs free energy')
    ctx.interesting(bool((on & (T[:, None] > 0)).any()))


SUBS = [
    Sub('identities', case_strategy, body, quick=120, thorough=2500, shards=(6, 8)),
    Sub('few', lambda: case_strategy(few=True), body, quick=30, thorough=800, shards=(2, 8)),
    Sub('kernels', kernel_case, kernel_body, quick=600, thorough=20000, shards=(2, 8)),
]
