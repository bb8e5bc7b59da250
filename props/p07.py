"""P07: quasi-harmonic results do not depend on units or on how the input is written."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib import phin, qharef as Q
from vlib.core import Sub, check, close

RULE = ('Generated: pairs of quasi-harmonic runs of one model crystal, one written canonically (Ha, A, cm^-1, K, GPa), the other in '
        'random units with volumes, q-points and modes permuted, weights rescaled and a q-point split; both schemes and minimisations, few '
        'or 50 temperatures. Oracle: the two result sets agree after conversion. Non-trivial: at least two compared (T,P) points '
        'and a rewriting that changes the file.')
ASSUMPTIONS = ['compared where the equilibrium is inside the sampled volumes and, for polynomial minimisation, unique there',
               'the allowance follows the rounding of the static energies: 1e5 eps E0/(KT V) for volumes']


@st.composite
def case_strategy(draw):
    c = draw(Q.crystal())
    c['scheme'] = draw(st.sampled_from(['freq', 'td']))
    c['min'] = draw(st.sampled_from(['poly', 'poly', 'eos']))
    c['edeg'], c['fdeg'] = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    c['eos'] = draw(st.sampled_from(Q.EOS))
    c['eunit'] = draw(st.sampled_from(['Ha', 'eV', 'Ry']))
    c['lunit'] = draw(st.sampled_from(['A', 'bohr']))
    c['funit'] = draw(st.sampled_from(['cm^-1', 'THz', 'Hz']))
    c['tunit'] = draw(st.sampled_from(['K', 'C']))
    c['punit'] = draw(st.sampled_from(['GPa', 'kbar']))
    nt, np_ = draw(st.sampled_from([1, 2, 3, 4, 50])), draw(st.integers(1, 2))
    dt = float(draw(st.integers(10, 250))) if nt < 50 else float(draw(st.integers(4, 16)))
    c['T'] = [draw(st.sampled_from([0., 0., 10., 300.])), nt, dt]
    dp = round(c['K0'] * draw(st.floats(0.002, 0.02)), 2)
    c['P'] = [draw(st.sampled_from([0., 0., -dp, dp])), np_, dp]
    nm = 3 * c['nat']
    c['permq'] = draw(st.permutations(range(c['nq'])))
    c['permm'] = draw(st.permutations(range(nm)))
    c['permv'] = draw(st.one_of(st.none(), st.permutations(range(len(c['x']))), st.just(list(range(len(c['x'])))[::-1])))
    c['wscale'] = draw(st.sampled_from([1., 2., 0.5, 3., 1. / 7.]))
    c['split'] = draw(st.one_of(st.none(), st.tuples(st.integers(0, c['nq'] - 1), st.sampled_from([0.5, 0.5, 0.3])).map(list)))
    c['style'] = draw(st.sampled_from([0, 1, 2]))
    return c


def one(c, scratch, name, unit=None):
    u = unit or {'eunit': 'Ha', 'lunit': 'A', 'funit': 'cm^-1', 'tunit': 'K', 'punit': 'GPa'}
    path = os.path.join(scratch, name)
    kw = {}
    if unit:
        kw = dict(style=c['style'], permq=list(c['permq']), permm=list(c['permm']), wscale=c['wscale'], split=c['split'],
                  permv=c['permv'])
    Q.write(c, path, u['eunit'], u['lunit'], u['funit'], **kw)
    t0, nt, dt = c['T']
    t0 -= 273.15 if u['tunit'] == 'C' else 0.
    p0, np_, dp = c['P']
    k = phin.PUNIT[u['punit']]
    s = Q.settings((t0, t0 + dt * (nt - 1), dt), (p0 * k, (p0 + dp * (np_ - 1)) * k, dp * k), qha_scheme=c['scheme'],
                   minimization=c['min'], edeg=c['edeg'], fdeg=c['fdeg'], eos_function=c['eos'], energy_unit=u['eunit'],
                   lenght_unit=u['lunit'], frequency_unit=u['funit'], temperature_unit=u['tunit'], pressure_unit=u['punit'])
    calc, err = Q.run(path, s)
    check(err is None, 'the run of {} failed: {}', name, err)
    R = {}
    e = 1. / phin.EUNIT[u['eunit']]
    for key, v in calc.results.items():
        v = np.asarray(v, dtype=float)
        f = {'VT': phin.LUNIT[u['lunit']] ** -3, 'KT': 1. / k, 'KS': 1. / k, 'Kp': 1., 'alphaV': 1., 'gruneisen': 1.}.get(key, e)
        R[key] = v * f
    return R, np.asarray(calc.temperature) + (273.15 if u['tunit'] == 'C' else 0.), np.asarray(calc.pressure) / k


def body(c, ctx):
    A, T, P = one(c, ctx.scratch, 'a.yaml')
    B, T2, P2 = one(c, ctx.scratch, 'b.yaml', {k: c[k] for k in ('eunit', 'lunit', 'funit', 'tunit', 'punit')})
    close(T2, T, rtol=1e-12, atol=1e-12, what='temperature axis')
    close(P2, P, rtol=1e-12, atol=1e-12, what='pressure axis')
    check(sorted(A) == sorted(B), 'the results hold {} and {}', sorted(A), sorted(B))
    V = Q.volumes(c)
    E, b = Q.static(c, V), Q.bands(c, V)
    noise = 2.3e-16 * abs(c['E0'])
    margin = 0.02 * np.ptp(V)
    VA = A['VT']
    ok = np.isfinite(VA) & (VA > V[0] + margin) & (VA < V[-1] - margin) & (A['KT'] > 3.)
    for i, t in enumerate(T):
        fit = Q.Fit(V, E + Q.harmonic(t, b, c['w'])['f'], c['edeg'])
        for j, p in enumerate(P):
            if ok[i, j] and c['min'] == 'poly' and len(fit.minimum(p / Q.GPA)) != 1:
                ok[i, j] = False
    kt = np.where(ok, A['KT'], 100.)
    w = '{} {} {} {} {}: '.format(c['scheme'], c['min'], c['eunit'], c['lunit'], c['funit'])
    nz = noise / np.ptp(E)
    if c['min'] == 'poly':
        tv = 1e-7 + 1e5 * noise / kt * Q.GPA / np.where(ok, VA, 1.)
        tk = 2e-4 + 60 * noise / (np.where(ok, VA, 1.) * 1e-6) * Q.GPA * (30 if c['edeg'] > 3 else 1) / kt
        tp = None
    else:
        tv, tk, tp = 2e-5 + 300 * nz, 1e-3 + 6000 * nz, 0.05 + 6e4 * nz
    tv = np.broadcast_to(tv, ok.shape)

    def eq(k, rtol=0., atol=0., m=ok):
        a, b_ = np.where(m, A[k], 0.), np.where(m, B[k], 0.)
        close(b_, a, rtol=rtol, atol=np.where(m, atol, 0.) + 0. * a, what=w + k)

    eq('VT', atol=tv * np.where(ok, VA, 0.))
    soft = tk > 0.3
    eq('KT', atol=np.where(ok & ~soft, tk * kt, np.inf) if np.any(soft) else tk * kt)
    if tp is not None:
        eq('Kp', atol=tp)
    # properties at the volume: their slope with volume is bounded by a few times the value over the volume
    zp = np.abs(A['Uzp'])
    rel = 2e-8 + 60. * tv
    for k in ('Uzp', 'Uth', 'Fvib'):
        eq(k, rtol=0., atol=rel * (np.abs(A[k]) + zp) + 1e-12)
    kb = Q.KB / phin.HARTREE_J * 1e3
    sc = kb * 3 * c['nat']
    eq('S', atol=rel * (np.abs(A['S']) + sc))
    eq('Cv', atol=rel * (np.abs(A['Cv']) + sc))
    pv = np.abs(kt / Q.GPA * np.where(ok, VA, 0.))
    for k in ('Utot', 'F', 'H', 'G'):
        eq(k, atol=200 * noise + rel * zp + (rel * (np.abs(A['Uth']) + 3 * c['nat'] * Q.KB / phin.HARTREE_J * T[:, None])) + 2 * tv * pv)
    nt, dt = c['T'][1], c['T'][2]
    if nt >= 50:
        m = ok.copy()
        m[:-1] &= ok[1:]
        m[1:] &= ok[:-1]
        ta = 3. * tv / dt + 1e-7 * np.abs(A['alphaV'])
        eq('alphaV', atol=np.where(m, ta, 0.), m=m)
        al = np.abs(A['alphaV'])
        ra = np.where(m, ta * (2 * al + ta) + al ** 2 * tk, 0.) * kt / Q.GPA * VA * T[:, None] * 1e3
        eq('Cp-Cv', atol=ra * 1.5 + 1e-15, m=m)
        eq('Cp', atol=ra * 1.5 + rel * (np.abs(A['Cv']) + sc), m=m)
        big = m & (A['Cv'] > 1e-3 * sc)
        cv = np.where(big, A['Cv'], 1.) * 1e-3
        rc = rel * (np.abs(A['Cv']) + sc) / np.where(big, A['Cv'], 1.)
        tg = (ta + al * (tk + rc)) * kt / Q.GPA * np.where(big, VA, 1.) / cv
        eq('gruneisen', atol=tg * 1.5 + 1e-7, m=big)
        tks = kt * (tk + 1.5 * (ta * np.abs(A['gruneisen']) + al * tg) * T[:, None]) + 1e-6 * kt
        eq('KS', atol=np.where(big, tks * 2, 0.), m=big)
        ctx.note('expansion compared')
    ctx.note(w.split(':')[0].rsplit(' ', 3)[0])
    changed = c['split'] or c['permv'] or c['wscale'] != 1. or list(c['permq']) != sorted(c['permq']) or list(c['permm']) != sorted(c['permm']) or \
        (c['eunit'], c['lunit'], c['funit'], c['tunit'], c['punit']) != ('Ha', 'A', 'cm^-1', 'K', 'GPa')
    ctx.interesting(changed and ok.sum() >= 2)


SUBS = [Sub('rewritten', case_strategy, body, quick=90, thorough=2500, shards=(6, 8))]
