"""P05: quasi-harmonic equilibrium volumes, bulk moduli and energies."""
import os
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize_scalar
from vlib import phin, qharef as Q
from vlib.core import Sub, check, close, fail
from props.p08 import energy_form

RULE = ('Generated: crystals (static energies from polynomials or equations of state, 1-2 atoms, 1-3 weighted q-points, '
        'volume-dependent frequencies with positive and negative Grueneisen parameters, 6-11 volumes), temperature and pressure '
        'ranges, both interpolation schemes, both minimisation methods, polynomial degrees 2-5, four equations of state. '
        'Judged at every (T,P) whose reference equilibrium lies inside the sampled volumes: against the documented '
        'polynomial/EoS model evaluated independently, and against the true minimum of the smooth model surface. Non-trivial: at least two '
        'judged points with T>0.')
ASSUMPTIONS = ['points whose equilibrium is outside the sampled volumes, or closer than 2% of the range to its ends, are not judged',
               'EoS-minimised runs report KT of the fitted EoS']

#: allowed relative distance from the true minimum (degree of the polynomial, or EoS)
TRUTH = {2: 0.04, 3: 8e-3, 4: 1.2e-3, 5: 3e-4, 'eos': 6e-3}


@st.composite
def case_strategy(draw):
    c = draw(Q.crystal())
    c['permv'] = draw(st.one_of(st.none(), st.none(), st.permutations(range(len(c['x'])))))
    c['scheme'] = draw(st.sampled_from(['freq', 'td']))
    c['min'] = draw(st.sampled_from(['poly', 'poly', 'eos']))
    c['edeg'], c['fdeg'] = draw(st.integers(2, 5)), draw(st.integers(2, 5))
    c['eos'] = draw(st.sampled_from(Q.EOS))
    nt, np_ = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    dt = float(draw(st.integers(10, 250)))
    t0 = draw(st.sampled_from([0., 0., 10., 298.15, 100.]))
    c['T'] = [t0, t0 + dt * (nt - 1), dt]
    dp = round(c['K0'] * draw(st.floats(0.002, 0.025)), 3)
    p0 = draw(st.sampled_from([0., 0., 1., -0.01, -1., -2.])) * round(0.02 * c['K0'], 2)
    c['P'] = [p0, p0 + dp * (np_ - 1), dp]
    return c


def reference(c, T, V=None):
    """The documented model at one temperature."""
    V = Q.volumes(c)
    b, E = Q.bands(c, V), Q.static(c, V)
    h = Q.harmonic(T, b, c['w'])
    return V, b, E, h


def model_at(c, scheme, edeg, fdeg, T, v, noise):
    """Every property of the documented interpolation at the volume v (hartree, GPa)."""
    V, b, E, h = reference(c, T)
    out = {}
    if scheme == 'td':
        full = dict(h, utot=E + h['zpe'] + h['uth'], ftot=E + h['f'])
        for k in ('zpe', 'uth', 's', 'cv', 'f', 'utot', 'ftot'):
            fit = Q.Fit(V, full[k], edeg)
            out[k] = float(fit(v))
            if k == 'ftot':
                out['KT'] = float(v * fit(v, 2)) * Q.GPA
                out['P'] = -float(fit(v, 1)) * Q.GPA
        return out
    w = np.array(c['w'], dtype=float)
    w = w / w.sum()
    U0 = Q.Fit(V, E, edeg)
    F = Q.Fit(V, b, fdeg)
    nu = F(v)
    nu = np.where(np.all(b == 0, axis=2), 0., nu)
    o, on = Q.oscillator(T, nu)
    for k in ('zpe', 'uth', 's', 'cv', 'f'):
        out[k] = float((w[:, None] * o[k]).sum())
    hc = Q.H * phin.C_CM / phin.HARTREE_J
    d1, d2 = F(v, 1) * hc, F(v, 2) * hc
    f1 = (w[:, None] * on * o['df'] * d1).sum()
    f2 = (w[:, None] * on * (o['d2f'] * d1 ** 2 + o['df'] * d2)).sum()
    out['utot'] = float(U0(v)) + out['zpe'] + out['uth']
    out['ftot'] = float(U0(v)) + out['f']
    out['KT'] = float(v * (U0(v, 2) + f2)) * Q.GPA
    out['P'] = -float(U0(v, 1) + f1) * Q.GPA
    # the smallest interpolated frequency, in parts of that of the sampled volumes
    out['numin'] = float((nu[on > 0] / np.abs(b).mean(axis=2)[on > 0]).min()) if on.any() else 1.
    return out


def gauss_newton(tag, E0, K, KP, V0, V, Y):
    """One Gauss-Newton step of the least-squares fit of Y(V), starting from the given parameters (K in hartree/A^3)."""
    p = np.array([0., K, KP, V0])
    base = energy_form(tag, 0., K, KP, V0, V)
    J = [np.ones_like(V)]
    for i in (1, 2, 3):
        d = 1e-5 * p[i]
        a, b = p.copy(), p.copy()
        a[i] += d
        b[i] -= d
        J.append((energy_form(tag, *a, V) - energy_form(tag, *b, V)) / (2 * d) * p[i])
    J = np.array(J).T
    r = Y - Y.min() - base
    s = np.abs(J).max(axis=0)
    step = np.linalg.lstsq(J / s, r, rcond=None)[0] / s
    res = r - J @ step
    return step[1:], np.sqrt(np.mean(res ** 2)) / np.ptp(Y)


def body(c, ctx):
    path = os.path.join(ctx.scratch, 'q.yaml')
    Q.write(c, path, permv=c['permv'])
    s = Q.settings(tuple(c['T']), tuple(c['P']), qha_scheme=c['scheme'], minimization=c['min'], edeg=c['edeg'], fdeg=c['fdeg'],
                   eos_function=c['eos'])
    calc, err = Q.run(path, s)
    check(err is None, 'the run failed: {}', err)
    R = {k: np.asarray(v) for k, v in calc.results.items()}
    T, P = np.asarray(calc.temperature), np.asarray(calc.pressure)
    V = Q.volumes(c)
    judged = 0
    inside = np.zeros((T.size, P.size), dtype=bool)
    # the run evaluates KT from 5 points 0.05% apart
    noise = 2.3e-16 * abs(c['E0'])
    for i, t in enumerate(T):
        _, b, E, h = reference(c, t)
        fit = Q.Fit(V, E + h['f'], c['edeg'])
        for j, p in enumerate(P):
            what = '{} {} at T={} P={}: '.format(c['scheme'], c['min'] if c['min'] == 'poly' else c['eos'], t, p)
            def true(v):
                v = np.array([v])
                return (Q.static(c, v) + Q.harmonic(t, Q.bands(c, v), c['w'])['f'])[0] - c['E0'] + p / Q.GPA * v[0]
            tr = minimize_scalar(true, bounds=(V[0], V[-1]), method='bounded', options={'xatol': 1e-8 * V[0]}).x
            margin = 0.02 * np.ptp(V)
            if not (V[0] + margin < tr < V[-1] - margin):
                ctx.note('equilibrium outside')
                continue
            got = R['VT'][i, j]
            if c['min'] == 'poly':
                m = fit.minimum(p / Q.GPA)
                if len(m) != 1 or not (V[0] < m[0] < V[-1]):
                    ctx.note('polynomial without a single minimum')
                    continue
                kt = m[0] * fit(m[0], 2)[()] * Q.GPA
                if kt < 3.:
                    ctx.note('soft')
                    continue
                close(got, m[0], rtol=1e-7, atol=1e5 * noise / kt * Q.GPA, what=what + 'volume')
                ctx.note('judged poly ' + c['scheme'])
            else:
                K, KP = R['KT'][i, j], R['Kp'][i, j]
                Y = E + h['f'] + p / Q.GPA * V
                check(np.isfinite([got, K, KP]).all() and got > 0 and K > 0, '{}V={} KT={} Kp={}', what, got, K, KP)
                step, misfit = gauss_newton(c['eos'], 0., K / Q.GPA, KP, got, V, Y)
                nz = noise / np.ptp(Y)
                check(misfit < 0.02, '{}the equation of state misses the energies by {:.2g}', what, misfit)
                close(step[2], 0., atol=2e-6 + 100 * nz, what=what + 'relative improvement of the volume left by the fit')
                close(step[0], 0., atol=2e-4 + 3000 * nz, what=what + 'relative improvement of KT left by the fit')
                close(step[1], 0., atol=5e-3 + 3e4 * nz, what=what + "relative improvement of K' left by the fit")
                ctx.note('judged ' + c['eos'] + ' ' + c['scheme'])
            close(got, tr, rtol=TRUTH[c['edeg'] if c['min'] == 'poly' else 'eos'], what=what + 'volume against the true minimum')
            inside[i, j] = True
            judged += t > 0
            m = model_at(c, c['scheme'], c['edeg'], c['fdeg'], t, got, noise)
            if m.get('numin', 1.) <= 0.05:
                ctx.note('interpolated frequency vanishes')
                continue
            rt = 3e-8
            for k, r in (('zpe', 'Uzp'), ('uth', 'Uth'), ('f', 'Fvib')):
                close(R[r][i, j], m[k], rtol=rt, atol=1e-11 + rt * m['zpe'], what=what + r)
            for k, r in (('s', 'S'), ('cv', 'Cv')):
                close(R[r][i, j], m[k] * 1e3, rtol=rt, atol=1e-9, what=what + r)
            for k, r in (('utot', 'Utot'), ('ftot', 'F')):
                close(R[r][i, j], m[k], rtol=1e-12, atol=1e-10 + rt * m['zpe'] + 100 * noise, what=what + r)
            if c['min'] == 'poly':
                tol = 30 * noise / (got * 1e-6) * Q.GPA * (30 if c['edeg'] > 3 else 1)
                if tol < 0.3 * abs(m['KT']):
                    close(R['KT'][i, j], m['KT'], rtol=2e-4, atol=tol, what=what + 'KT')
                    ctx.note('KT judged')
                    hi, lo = (model_at(c, c['scheme'], c['edeg'], c['fdeg'], t, got * (1. + e), noise) for e in (1e-3, -1e-3))
                    # a local parabola (degree 2) has no third derivative
                    if abs(hi['P'] - lo['P']) > 1e-3 * abs(m['KT']) and (c['scheme'] == 'td' or c['edeg'] > 2):
                        close(R['Kp'][i, j], (hi['KT'] - lo['KT']) / (hi['P'] - lo['P']), rtol=5e-3, atol=0.01 + 3000 * tol / abs(m['KT']),
                              what=what + 'Kp')
                        ctx.note('Kp judged')
                # the volume is the equilibrium one of the same surface
                if c['scheme'] == 'td':
                    close(m['P'], p, atol=1e-6 * m['KT'] + 1e5 * noise / got * Q.GPA, what=what + 'pressure of the reported volume')
    for i in range(T.size):
        for j in range(P.size - 1):
            if inside[i, j] and inside[i, j + 1]:
                check(R['VT'][i, j + 1] < R['VT'][i, j], 'the volume grows with pressure at T={}: {} at {} GPa, {} at {} GPa', T[i],
                      R['VT'][i, j], P[j], R['VT'][i, j + 1], P[j + 1])
    ctx.interesting(judged >= 2)


# --- energies whose polynomial has a second minimum outside the data -----------------------------------------------------
@st.composite
def second_case(draw):
    return {'v': draw(st.floats(8., 400.)), 'n': draw(st.integers(6, 11)), 'in': draw(st.floats(-0.6, 0.6)),
            'gap': draw(st.floats(1.05, 6.)), 'far': draw(st.floats(0.2, 3.)), 'order': draw(st.sampled_from([0, 1, 2])), 'side': draw(st.sampled_from([-1, 1])),
            'deg': draw(st.sampled_from([4, 4, 5])), 'K0': draw(st.floats(20., 300.)), 'E0': draw(st.floats(-500., -1.)),
            'P': draw(st.floats(-2., 20.)), 'scheme': draw(st.sampled_from(['freq', 'td'])), 'given': draw(st.booleans())}


def second_body(c, ctx):
    from quantas.qha.qha import QHACalculator
    from quantas.utils.math.polynomials import polyfit
    # slope of F + PV in z = (V - v)/(0.08 v): zero at a minimum inside, a maximum and a minimum outside
    z = np.linspace(-1., 1., c['n'])
    h = 0.08 * c['v']
    V = c['v'] + h * z
    m = c['side'] * c['gap']
    r = [c['in'], m, m + c['side'] * c['far']]
    d = np.polynomial.polynomial.polyfromroots(r)
    if c['deg'] == 5:
        d = np.polynomial.polynomial.polymul(d, [8., c['side'] * 0.7])     # one more stationary point, further out
    k = np.polynomial.polynomial.polyval(c['in'], np.polynomial.polynomial.polyder(d))
    d = d * (c['K0'] / Q.GPA / c['v'] * h ** 2 / k)
    F = np.polynomial.polynomial.polyval(z, np.polynomial.polynomial.polyint(d)) + c['E0'] - c['P'] / Q.GPA * V
    if c['order']:
        o = np.arange(V.size)[::-1] if c['order'] == 1 else np.random.RandomState(c['n']).permutation(V.size)
        V, F = V[o].copy(), F[o].copy()
    calc = QHACalculator(Q.settings((0., 100., 100.), (0., 1., 1.), qha_scheme=c['scheme'], edeg=c['deg']))
    p = polyfit(V, F, c['deg']) if c['given'] else None
    v, _, _ = calc.minimize_volume(V, F, c['P'], p)
    close(v, c['v'] + h * c['in'], rtol=1e-5, what='volume (sampled from {} to {})'.format(V.min(), V.max()))
    ctx.note('second minimum {}'.format('above' if c['side'] > 0 else 'below'))
    ctx.interesting(True)


# --- soft crystals: pressures of a few MPa count -------------------------------------------------------------------------
@st.composite
def soft_case(draw):
    return {'v': draw(st.floats(10., 400.)), 'n': draw(st.integers(6, 11)), 'lo': draw(st.floats(0.06, 0.12)),
            'hi': draw(st.floats(0.04, 0.1)), 'logK': draw(st.floats(-1.3, 1.)), 'KP': draw(st.floats(3., 9.)),
            'E0': draw(st.floats(-50., -0.1)), 'form': draw(st.sampled_from(Q.EOS)), 'eos': draw(st.sampled_from(Q.EOS)),
            'deg': draw(st.sampled_from([3, 4, 5])), 'PK': draw(st.one_of(st.floats(0.002, 0.05), st.floats(-0.02, -0.002))),
            'scheme': draw(st.sampled_from(['freq', 'td']))}


def soft_body(c, ctx):
    from quantas.qha.qha import QHACalculator
    K = 10. ** c['logK']
    V = c['v'] * (1. + np.linspace(-c['lo'], c['hi'], c['n']))
    F = energy_form(c['form'], c['E0'], K / Q.GPA, c['KP'], c['v'], V)
    P = K * c['PK']
    tr = minimize_scalar(lambda v: energy_form(c['form'], 0., K / Q.GPA, c['KP'], c['v'], np.array([v]))[0] + P / Q.GPA * v,
                         bounds=(V[0], V[-1]), method='bounded', options={'xatol': 1e-9 * V[0]}).x
    if not (V[0] + 0.02 * np.ptp(V) < tr < V[-1] - 0.02 * np.ptp(V)):
        ctx.note('equilibrium outside')
        return
    what = 'K0 {:.4g} GPa at {:.4g} GPa, '.format(K, P)
    calc = QHACalculator(Q.settings((0., 100., 100.), (0., 1., 1.), qha_scheme=c['scheme'], edeg=c['deg']))
    v, _, _ = calc.minimize_volume(V, F, P)
    close(v, tr, rtol=TRUTH[c["deg"]], what=what + "volume by the polynomial")
    m = Q.Fit(V, F, c['deg']).minimum(P / Q.GPA)
    if len(m) == 1:
        close(v, m[0], rtol=1e-6, what=what + 'volume by the polynomial of the same degree')
    calc = QHACalculator(Q.settings((0., 100., 100.), (0., 1., 1.), qha_scheme=c['scheme'], minimization='eos', eos_function=c['eos']))
    v, kt, kp = calc.minimize_volume(V, F, P)
    close(v, tr, rtol=4e-3, what=what + 'volume by the ' + c['eos'])
    close(kt, K + c['KP'] * P, rtol=0.15, what=what + 'bulk modulus by the ' + c['eos'])
    ctx.note('K0 below 0.5 GPa' if K < 0.5 else 'K0 above 0.5 GPa')
    ctx.interesting(True)


# --- conditions without an equilibrium --------------------------------------------------------------------------------------
@st.composite
def undefined_case(draw):
    c = draw(Q.crystal(max_nq=2, nv=(6, 9)))
    c['scheme'] = draw(st.sampled_from(['freq', 'td']))
    c['min'] = draw(st.sampled_from(['poly', 'poly', 'eos']))
    c['edeg'], c['fdeg'] = draw(st.integers(3, 5)), draw(st.integers(2, 4))
    c['eos'] = draw(st.sampled_from(Q.EOS))
    c['T'] = [draw(st.sampled_from([0., 100., 300.])), draw(st.sampled_from([1, 1, 2, 3, 50])), float(draw(st.integers(2, 15)))]
    c['pull'] = draw(st.floats(0.15, 1.2))       # tension, in parts of the bulk modulus
    return c


def undefined_body(c, ctx):
    path = os.path.join(ctx.scratch, 'q.yaml')
    Q.write(c, path)
    p = -round(c['K0'] * c['pull'], 1)
    t0, nt, dt = c['T']
    kw = dict(qha_scheme=c['scheme'], minimization=c['min'], edeg=c['edeg'], fdeg=c['fdeg'], eos_function=c['eos'])
    calc, err = Q.run(path, Q.settings((t0, t0 + dt * (nt - 1), dt), (p, 0., -p), **kw))
    check(err is None, 'the run failed: {}', err)
    alone, err = Q.run(path, Q.settings((t0, t0 + dt * (nt - 1), dt), (0., 0., 1.), **kw))
    check(err is None, 'the run at zero pressure failed: {}', err)
    R = {k: np.asarray(v, dtype=float) for k, v in calc.results.items()}
    V = Q.volumes(c)
    E, b = Q.static(c, V), Q.bands(c, V)
    T, P = np.asarray(calc.temperature), np.asarray(calc.pressure)
    check(P.size == 2 and T.size == nt, 'axes of {} and {} values', T.size, P.size)
    none = 0
    derived = ('alphaV', 'Cp-Cv', 'Cp', 'gruneisen')
    for i in range(nt):
        fit = Q.Fit(V, E + Q.harmonic(T[i], b, c['w'])['f'], c['edeg'])
        d = np.polynomial.polynomial.polyder(fit.p[:, 0]) / fit.h
        d[0] += P[0] / Q.GPA
        z = np.linspace(-1., 1., 801)
        slope = np.polynomial.polynomial.polyval(z, d)
        what = '{} {} at T={} P={} GPa: '.format(c['scheme'], c['min'] if c['min'] == 'poly' else c['eos'], T[i], P[0])
        if slope.max() > -1e-3 * abs(P[0]) / Q.GPA:
            ctx.note('not far enough')
            continue
        got = R['VT'][i, 0]
        check(not V[0] <= got <= V[-1], '{}volume {} among those sampled, where F + PV has no minimum', what, got)
        if c['min'] == 'poly':
            r = np.polynomial.polynomial.polyroots(d)
            mins = [x.real for x in r if abs(x.imag) < 1e-3 * (1. + abs(x.real))]
            if mins:
                ctx.note('minimum far from the volumes')
                continue
            check(np.isnan(got), '{}volume {} of a function that has no minimum', what, got)
        if np.isnan(got):
            none += 1
            for k in R:
                if nt < 50 and k in derived:
                    continue
                if T[i] == 0. and k in ('Uth', 'S', 'Cv', 'gruneisen') and R[k][i, 0] == 0.:
                    continue        # zero at 0 K, whatever the volume
                check(np.isnan(R[k][i, 0]), '{}{} is {} where no volume is defined', what, k, R[k][i, 0])
            ctx.note('undefined ' + c['min'])
    # the other pressure does not notice
    for k in R:
        a = np.asarray(alone.results[k], dtype=float)[:, 0]
        check(np.array_equal(R[k][:, 1], a, equal_nan=True), '{} at zero pressure: {} with the tension, {} alone', k, R[k][:, 1], a)
    ctx.interesting(none > 0)


# --- minima that vanish on heating, and the axes -----------------------------------------------------------------------------
@st.composite
def vanishing_case(draw):
    c = draw(Q.crystal(max_nq=2, nv=(6, 9)))
    c['scheme'] = draw(st.sampled_from(['freq', 'td']))
    c['fdeg'] = draw(st.integers(2, 4))
    c['T'] = [draw(st.sampled_from([0., 50., 300.])), draw(st.integers(2, 8)), float(draw(st.integers(50, 250)))]
    c['at'] = draw(st.floats(0.1, 0.9))
    c['np'] = draw(st.integers(1, 3))
    return c


def vanishing_body(c, ctx):
    V = Q.volumes(c)
    E, b = Q.static(c, V), Q.bands(c, V)
    t0, nt, dt = c['T']
    D = []
    for i in range(nt):
        fit = Q.Fit(V, E + Q.harmonic(t0 + i * dt, b, c['w'])['f'], 3)
        D.append(np.polynomial.polynomial.polyder(fit.p[:, 0]) / fit.h)
    D = np.array(D)
    if not np.all(D[:, 2] < 0.):
        ctx.note('slopes without a maximum')
        return
    top = D[:, 0] - D[:, 1] ** 2 / (4. * D[:, 2])       # largest slope of F at each temperature: the strongest tension it can bear
    p = -Q.GPA * (c['at'] * top.max() + (1. - c['at']) * top.min())
    path = os.path.join(ctx.scratch, 'q.yaml')
    Q.write(c, path)
    dp = 0.05 * abs(p)
    calc = None
    from quantas.qha.qha import QHACalculator
    calc = QHACalculator(Q.settings((t0, t0 + dt * (nt - 1), dt), (p, p + dp * (c['np'] - 1), dp), qha_scheme=c['scheme'], edeg=3, fdeg=c['fdeg']))
    err = calc.read_input(path)
    check(err is None, 'input refused: {}', err)
    calc.run()
    check(calc.completed, 'run not completed: {}', calc.error)
    P, R = np.asarray(calc.pressure), calc.results
    VT = np.asarray(R['VT'], dtype=float)
    check(VT.shape == (nt, P.size), 'volumes of shape {}', VT.shape)
    seen = set()
    for i in range(nt):
        for j in range(P.size):
            m = top[i] + P[j] / Q.GPA
            if abs(m) < 1e-4 * (abs(P[j]) + 1e-3 * c['K0']) / Q.GPA:
                continue
            what = 'T={} P={} GPa: '.format(t0 + i * dt, P[j])
            if m < 0.:
                check(np.isnan(VT[i, j]), '{}volume {} of a function that has no minimum', what, VT[i, j])
                for k in ('KT', 'F', 'G', 'Utot'):
                    check(np.isnan(R[k][i, j]), '{}{} is {} where no volume is defined', what, k, R[k][i, j])
            else:
                r = np.sort(np.polynomial.polynomial.polyroots(D[i] + [P[j] / Q.GPA, 0., 0.]).real)
                want = 0.5 * (V[0] + V[-1]) + 0.5 * np.ptp(V) * r[0]
                close(VT[i, j], want, atol=1e-4 * V[0] + 1e-2 * (r[1] - r[0]) * 0.5 * np.ptp(V), what=what + 'volume at the minimum')
            seen.add(m > 0.)
    ctx.note('both' if len(seen) == 2 else 'one kind')
    ctx.interesting(len(seen) == 2)


@st.composite
def axes_case(draw):
    out = {}
    for k in 'TP':
        step = draw(st.one_of(st.integers(1, 500).map(float), st.integers(1, 9999).map(lambda x: x / 100.), st.floats(1e-5, 0.5)))
        out[k] = [draw(st.sampled_from([0., 298.15, 1e-4, 12.3456, 101325e-9])), draw(st.integers(1, 60)), step, draw(st.sampled_from([0., 0., 0.3, 0.9]))]
    out['neg'] = draw(st.booleans())
    return out


def axes_body(c, ctx):
    from quantas.qha.qha import QHACalculator
    from props.p04 import check_axis
    r = {}
    for k in 'TP':
        a, n, d, more = c[k]
        if k == 'P' and c['neg']:
            a = -a - d * n / 3.
        r[k] = (a, a + d * (n - 1 + more), d)
    calc = QHACalculator(Q.settings(r['T'], r['P']))
    check_axis(calc.temperature, r['T'][0], c['T'][1], c['T'][2], 'temperature axis {}'.format(r['T']))
    check_axis(calc.pressure, r['P'][0], c['P'][1], c['P'][2], 'pressure axis {}'.format(r['P']))
    ctx.interesting(c['P'][1] > 1 and c['T'][1] > 1)


SUBS = [
    Sub('equilibrium', case_strategy, body, quick=110, thorough=2500, shards=(6, 8)),
    Sub('second-minimum', second_case, second_body, quick=150, thorough=5000, shards=(2, 8)),
    Sub('soft', soft_case, soft_body, quick=200, thorough=6000, shards=(2, 8)),
    Sub('undefined', undefined_case, undefined_body, quick=120, thorough=3000, shards=(2, 8)),
    Sub('vanishing', vanishing_case, vanishing_body, quick=80, thorough=2500, shards=(2, 8)),
    Sub('axes', axes_case, axes_body, quick=200, thorough=8000, shards=(1, 4)),
]
