"""P04: a harmonic run reports the exact thermodynamics of its input file."""
import os
import numpy as np
from hypothesis import strategies as st
from quantas.harmonic.harmonic import HACalculator
from vlib import phin
from vlib.core import Sub, check, close
from props.p02 import reference

RULE = ('Generated: crystals of 1-3 atoms, 1-4 q-points with integer or fractional weights, 1-5 volumes, frequencies '
        '(positive over five decades, zero, negative), static energies down to -1e4 Ha, written with the volumes, '
        'energies, frequencies and temperatures in every unit the run accepts, q-points and modes permuted, q-points '
        'split and weights rescaled; temperature ranges that do or do not end on the maximum. Non-trivial: a positive '
        'temperature, a positive frequency and at least one unit other than the default or a rewritten q-point list.')
ASSUMPTIONS = ['reference thermodynamics are those of P02 evaluated on the physical description, not on the file']


@st.composite
def phys(draw, max_nv=5):
    nat = draw(st.integers(1, 3))
    nq = draw(st.integers(1, 4))
    nv = draw(st.integers(1, max_nv))
    many = max_nv > 4 and draw(st.sampled_from([False] * 11 + [True]))
    if many:        # as many modes and q-points as real crystals have
        nat, nq, nv = draw(st.sampled_from([(1, 150, 3), (43, 1, 2), (12, 20, 3), (1, 1, 40), (5, 65, 1)]))
    f = st.one_of(st.floats(20., 3500.), st.floats(20., 3500.), st.floats(0.05, 20.), st.floats(-300., -0.01), st.just(0.))
    pool = draw(st.lists(f, min_size=1, max_size=10))
    n = nq * 3 * nat * nv
    if many:
        idx = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1))).randint(0, len(pool), n).tolist()
    else:
        idx = draw(st.lists(st.integers(0, len(pool) - 1), min_size=n, max_size=n))
    v0 = draw(st.floats(10., 900.))
    dv = draw(st.lists(st.floats(0.001, 0.05), min_size=nv, max_size=nv)) if nv < 20 else [0.01] * nv
    vols = (v0 * (0.9 + np.cumsum(dv))).tolist()
    if draw(st.sampled_from([False, False, True])):
        vols = draw(st.permutations(vols))
    e0 = draw(st.floats(-1e4, -1.))
    en = [e0 + draw(st.floats(-0.1, 0.1)) for _ in range(nv)]
    w = draw(st.lists(st.one_of(st.integers(1, 24).map(float), st.floats(0.05, 9.)), min_size=nq, max_size=nq))
    return {'nat': nat, 'shape': [nq, 3 * nat, nv], 'pool': pool, 'idx': idx, 'vols': vols, 'en': en, 'w': w}


@st.composite
def case_strategy(draw):
    c = draw(phys())
    nq, nm, nv = c['shape']
    c['eunit'] = draw(st.sampled_from(['Ha', 'eV', 'Ry']))
    c['funit'] = draw(st.sampled_from(['cm^-1', 'THz', 'Hz']))
    c['lunit'] = draw(st.sampled_from(['A', 'bohr']))
    c['tunit'] = draw(st.sampled_from(['K', 'C']))
    c['permq'] = draw(st.permutations(range(nq)))
    c['permm'] = draw(st.permutations(range(nm)))
    c['wscale'] = draw(st.sampled_from([1., 1., 2., 0.5, 3., 1. / 7.]))
    c['split'] = draw(st.one_of(st.none(), st.tuples(st.integers(0, nq - 1), st.floats(0.1, 0.9)).map(list)))
    c['style'] = draw(st.sampled_from([0, 0, 1, 2]))
    c['T'] = draw(trange())
    c['qfirst'] = draw(st.booleans())
    return c


@st.composite
def trange(draw):
    kind = draw(st.sampled_from(['single', 'exact', 'loose', 'decimal']))
    t0 = draw(st.one_of(st.just(0.), st.floats(0.5, 1500.).map(lambda x: round(x, 2)), st.just(298.15)))
    if kind == 'single':
        return {'kind': kind, 't0': t0, 'dt': draw(st.sampled_from([1., 0.5, 10.])), 'n': 1, 'rest': 0.}
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), st.sampled_from([60, 101, 300])))
    if kind == 'decimal':
        dt = draw(st.integers(1, 99)) / 10.
    else:
        dt = draw(st.one_of(st.integers(1, 200).map(float), st.floats(0.01, 150.)))
    rest = 0.
    if kind == 'loose':
        rest = draw(st.floats(0.05, 0.95))
    return {'kind': kind, 't0': t0, 'dt': dt, 'n': n, 'rest': rest}


def settings(trange, **kw):
    s = {'trange': trange, 'energy_unit': 'Ha', 'lenght_unit': 'A', 'frequency_unit': 'cm^-1',
         'temperature_unit': 'K', 'debug': False, 'silent': True, 'logfile': None}
    s.update(kw)
    return s


def check_axis(axis, t0, n, dt, what):
    """axis holds t0, t0+dt, ... up to the requested maximum."""
    axis = np.asarray(axis, dtype=float)
    want = t0 + dt * np.arange(n)
    check(axis.shape == want.shape, '{}: {} values {} instead of {} for the requested range', what, axis.size,
          axis.tolist(), want.tolist())
    close(axis, want, rtol=1e-10, atol=1e-10 * abs(dt) * max(n, 1), what=what)


def write_case(case, path):
    """Writes the file; returns the canonical band (cm^-1) and weights."""
    nq, nm, nv = case['shape']
    band = np.array([case['pool'][i] for i in case['idx']], dtype=float).reshape(case['shape'])
    w = np.array(case['w'], dtype=float)
    fb, fw = band[case['permq']][:, case['permm']], w[case['permq']] * case['wscale']
    if case['split']:
        k, x = case['split']
        fb = np.concatenate([fb, fb[k:k + 1]])
        fw = np.concatenate([fw, [fw[k] * (1 - x)]])
        fw[k] *= x
    text = phin.yaml_text(np.array(case['vols']) * phin.LUNIT[case['lunit']] ** 3,
                          np.array(case['en']) * phin.EUNIT[case['eunit']],
                          fb * phin.FUNIT[case['funit']], fw, style=case['style'])
    with open(path, 'w') as f:
        f.write(text)
    return band, w


def body(case, ctx):
    path = os.path.join(ctx.scratch, 'ha.yaml')
    band, w = write_case(case, path)
    t = case['T']
    shift = -273.15 if case['tunit'] == 'C' else 0.
    t0 = t['t0'] + shift
    tmax = t0 + t['dt'] * (t['n'] - 1 + t['rest'])
    if t['kind'] == 'decimal':
        # as a user would type it
        t0, tmax = round(t0, 2), round(t0 + t['dt'] * (t['n'] - 1), 2)
    calc = HACalculator(settings((t0, tmax, t['dt']), energy_unit=case['eunit'], lenght_unit=case['lunit'],
                                 frequency_unit=case['funit'], temperature_unit=case['tunit']))
    check_axis(calc.temperature, t0, t['n'], t['dt'], 'temperature axis ({} to {} by {})'.format(t0, tmax, t['dt']))
    err = calc.read_input(path)
    check(err is None, 'valid input refused: {}', err)
    calc.run()
    check(calc.completed, 'run not completed: {}', calc.error)
    res = calc.results
    T = np.maximum(np.asarray(calc.temperature) - shift, 0.)
    # right at 0 K given in Celsius the conversion may leave 1e-14 K
    T = np.where(T < 1e-9, 0., T)
    ref, err, modes, x = reference(T, band * phin.C_CM, w / w.sum())
    k = phin.KJMOL[case['eunit']]
    nt, nv = T.size, band.shape[2]
    U0 = np.array(case['en']) * phin.EUNIT[case['eunit']]
    rt = 1e-8   # CODATA editions differ in the ninth digit
    zpe = ref['zpe'][0]
    fs = err['fscale'] / k
    close(np.asarray(res['Uzp']).reshape(-1), zpe / k, rtol=rt, what='zero-point energy')
    close(res['Uth'], ref['uth'] / k, rtol=rt, atol=np.abs(err['uth']).max() / k + 1e-300, what='thermal energy')
    close(res['S'], ref['s'] / k, rtol=rt, atol=err['s'] / k, what='entropy')
    close(res['Cv'], ref['cv'] / k, rtol=rt, atol=err['cv'] / k, what='heat capacity')
    close(res['Fvib'], ref['f'] / k, rtol=rt, atol=err['f'] / k, scale=fs, what='vibrational free energy')
    close(res['Utot'], U0[None, :] + (zpe[None, :] + ref['uth']) / k, rtol=1e-13, scale=np.abs(U0)[None, :],
          atol=rt * (zpe[None, :] + ref['uth']) / k, what='total energy')
    close(res['F'], U0[None, :] + ref['f'] / k, rtol=1e-13, scale=np.abs(U0)[None, :],
          atol=rt * fs + err['f'] / k, what='free energy')
    ctx.note('T range ' + t['kind'])
    ctx.note('eunit ' + case['eunit'])
    if case['split'] or case['wscale'] != 1 or case['permq'] != sorted(case['permq']):
        ctx.note('q-points rewritten')
        other = True
    else:
        other = (case['eunit'], case['funit'], case['lunit'], case['tunit']) != ('Ha', 'cm^-1', 'A', 'K')
    ctx.interesting(other and x.size and bool(np.any((x > 1e-6) & (x < 700))))


SUBS = [
    Sub('harmonic-run', case_strategy, body, quick=500, thorough=8000, shards=(4, 8)),
]
