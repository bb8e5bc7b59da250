"""P23: result files."""
import os
import numpy as np
import h5py
from click.testing import CliRunner
from hypothesis import strategies as st
from vlib import phin, qharef as Q, elastic as el
from vlib.core import Sub, check, close, fail
from props import p04

RULE = ('Generated: harmonic and quasi-harmonic runs in all units (every shape from a single value up, NaN included), elastic results with and '
        'without polar sections, job titles with unusual characters; foreign and damaged files (text, random bytes, truncated '
        'results, results of other kinds, missing datasets or attributes). Oracle: byte equality of every dataset with the results '
        'of the calculator, through h5py, QuantasHDF5Reader and the exporters. Non-trivial: more than one grid point / any foreign file.')
ASSUMPTIONS = ['elastic result files carry no title', 'damage inside an otherwise complete HDF5 file is not detectable and not generated']

UN = {'Cv', 'S', 'Cp', 'Cp-Cv'}
TITLES = ['MgO', 'hydroxylapatite, P6_3 (B3LYP)', 'a  b', "it's 50% {0} \\ done", 'Quartz \u03b1-phase, 25 \u00b0C', '12', 'x' * 90, 'quartz #2 # x', 'a/b: "c"; d & e', '- item']


def quoted(t):
    return "'" + t.replace("'", "''") + "'"


def retitle(path, title):
    with open(path, encoding='utf-8') as f:
        s = f.read()
    with open(path, 'w', encoding='utf-8') as f:
        f.write(s.replace('job: test', 'job: ' + quoted(title), 1))


def same(a, b, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape, '{} has shape {} instead of {}', what, a.shape, b.shape)
    check(np.array_equal(a, b, equal_nan=True), '{} differs from the result: {} and {}', what,
          a.ravel()[np.argmax(a.ravel() != b.ravel())] if a.size else '', b.ravel()[np.argmax(a.ravel() != b.ravel())] if a.size else '')


def reader_agrees(path, want, units):
    from quantas.IO.hdf5_reader import QuantasHDF5Reader
    r = QuantasHDF5Reader(path)
    r.read()
    check('This file was created with Quantas.' in r.info, 'the reader shows {!r}', r.info[:80])
    for k, v in want.items():
        v = np.asarray(v, dtype=float)
        check(r.has_data(k) is True, 'the reader does not find {}', k)
        same(r.get_data(k), v, k + ' from the reader')
        check('{: >15}: '.format(k).strip() in r.info, '{} is not listed by the reader', k)
        if k in units:
            check(r.get_attribute(k, 'unit') == units[k], 'the reader gives {!r} as the unit of {}', r.get_attribute(k, 'unit'), k)
        if v.ndim == 2:
            same(r.get_data_row(k, v.shape[0] - 1), v[-1], 'last row of ' + k)
            same(r.get_data_column(k, v.shape[1] - 1), v[:, -1], 'last column of ' + k)
            for m in (r.get_data_row(k, v.shape[0]), r.get_data_column(k, v.shape[1])):
                check(isinstance(m, str), 'the reader gives {!r} for a row or column that does not exist', m)
        m = r.get_attribute(k, 'nothing')
        check(isinstance(m, str) and 'nothing' in m, 'the reader gives {!r} for an attribute that does not exist', m)
    for k in ('missing', 'E', ''):
        if k not in want:
            check(r.has_data(k) is not True and isinstance(r.get_data(k), str) and isinstance(r.get_attribute(k, 'unit'), str),
                  'the reader finds {!r}', k)


def exporter_agrees(ex, path, want, axes, units):
    ex.load(path)
    check(ex.error is None, 'the exporter reports {!r}', ex.error)
    for attr, k in zip('xy', axes):
        d = getattr(ex, attr)
        same(d['values'], want[k], k + ' in the exporter')
        check(d['unit'] == units[k], 'unit of {} in the exporter: {!r}', k, d['unit'])
    keys = sorted(set(want) - set(axes))
    check(sorted(ex.keys) == keys, 'the exporter offers {} instead of {}', sorted(ex.keys), keys)
    for k in keys:
        same(ex.data[k]['values'], want[k], k + ' in the exporter')
        check(ex.data[k]['unit'] == units[k], 'unit of {} in the exporter: {!r}', k, ex.data[k]['unit'])


def stored(path, want, units, words):
    with h5py.File(path, 'r') as f:
        check(sorted(f.keys()) == sorted(want), 'the file holds {} instead of {}', sorted(f.keys()), sorted(want))
        for k, v in want.items():
            same(f[k][()], v, k)
            check(f[k].attrs['unit'] == units[k], 'unit of {}: {!r} instead of {!r}', k, f[k].attrs['unit'], units[k])
        info = f.attrs['info']
    for label, w in words:
        check(any(label in l and w in l for l in info.splitlines()), 'the description does not give {} as {!r}:\n{}', label, w, info)


# --- harmonic ---------------------------------------------------------------------------------------------------------------
@st.composite
def ha_case(draw):
    c = draw(p04.case_strategy())
    c['title'] = draw(st.sampled_from(TITLES))
    return c


def ha_run(c, scratch, name='ha.yaml'):
    from quantas.harmonic.harmonic import HACalculator
    path = os.path.join(scratch, name)
    p04.write_case(c, path)
    retitle(path, c['title'])
    t = c['T']
    t0 = t['t0'] - (273.15 if c['tunit'] == 'C' else 0.)
    calc = HACalculator(p04.settings((t0, t0 + t['dt'] * (t['n'] - 1 + t['rest']), t['dt']), energy_unit=c['eunit'], lenght_unit=c['lunit'],
                                     frequency_unit=c['funit'], temperature_unit=c['tunit']))
    err = calc.read_input(path)
    check(err is None, 'valid input refused: {}', err)
    calc.run()
    return calc


def ha_body(c, ctx):
    from quantas.harmonic.utils.export import QuantasHarmonicExport
    calc = ha_run(c, ctx.scratch)
    h5 = os.path.join(ctx.scratch, 'ha.hdf5')
    want = {k: np.array(calc.results[k]) for k in ('Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv')}
    want['T'] = np.array(calc.temperature)
    want['V'] = np.array(c['vols']) * phin.LUNIT[c['lunit']] ** 3
    want['U0'] = np.array(c['en']) * phin.EUNIT[c['eunit']]
    units = {k: ('m' if k in UN else '') + c['eunit'] for k in want}
    units.update(T=c['tunit'], V=c['lunit'])
    calc.export_hdf5(h5)
    with h5py.File(h5, 'r') as f:
        if f['V'].attrs['unit'] == c['lunit'] + '^3':
            units['V'] += '^3'
    stored(h5, want, units, [('Job:', c['title'].rstrip()), ('energy scale', c['eunit']), ('volume scale', c['lunit']),
                             ('frequency scale', c['funit']), ('temperature scale', c['tunit'])])
    reader_agrees(h5, want, units)
    exporter_agrees(QuantasHarmonicExport(), h5, want, 'TV', units)
    for k in ('Uth', 'F'):
        check(want[k].shape == (want['T'].size, want['V'].size), '{} has shape {}', k, want[k].shape)
        same(calc.results[k], want[k], k + ' after the export')
    ctx.interesting(want['F'].size > 1)


# --- quasi-harmonic ---------------------------------------------------------------------------------------------------------
@st.composite
def qha_case(draw):
    c = draw(Q.crystal(max_nq=2))
    c.update(scheme=draw(st.sampled_from(['freq', 'td'])), eunit=draw(st.sampled_from(['Ha', 'eV', 'Ry'])),
             lunit=draw(st.sampled_from(['A', 'bohr'])), funit=draw(st.sampled_from(['cm^-1', 'THz', 'Hz'])),
             tunit=draw(st.sampled_from(['K', 'C'])), punit=draw(st.sampled_from(['GPa', 'kbar'])),
             title=draw(st.sampled_from(TITLES)), nt=draw(st.sampled_from([1, 2, 3, 50])), np=draw(st.integers(1, 3)),
             dp=draw(st.sampled_from([0.5, 2., 40.])), min=draw(st.sampled_from(['poly', 'poly', 'eos'])),
             eos=draw(st.sampled_from(Q.EOS)))
    return c


@st.composite
def large_case(draw):
    c = draw(qha_case())
    c.update(nq=1, nat=1, w=c['w'][:1], min='poly', nt=draw(st.integers(60, 900)), np=draw(st.integers(1, 12)), dp=draw(st.sampled_from([0.1, 0.5])))
    return c


@st.composite
def large_ha(draw):
    c = draw(ha_case())
    c['T'] = dict(c['T'], kind='exact', dt=draw(st.sampled_from([0.5, 1., 2.])), n=draw(st.integers(100, 3000)), rest=0.)
    return c


def qha_run(c, scratch, name='q.yaml'):
    path = os.path.join(scratch, name)
    Q.write(c, path, c['eunit'], c['lunit'], c['funit'])
    retitle(path, c['title'])
    t0 = 20. - (273.15 if c['tunit'] == 'C' else 0.)
    s = Q.settings((t0, t0 + 10. * (c['nt'] - 1), 10.), (0., c['dp'] * (c['np'] - 1), c['dp']), qha_scheme=c['scheme'], minimization=c['min'],
                   eos_function=c['eos'], energy_unit=c['eunit'], lenght_unit=c['lunit'], frequency_unit=c['funit'],
                   temperature_unit=c['tunit'], pressure_unit=c['punit'])
    calc, err = Q.run(path, s)
    check(err is None, 'the run failed: {}', err)
    return calc


QKEYS = ('Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'VT', 'Cp', 'Cp-Cv', 'KT', 'KS', 'Kp', 'H', 'G', 'alphaV', 'gruneisen')


def qha_body(c, ctx):
    from quantas.qha.utils.export import QuantasQHAExport
    calc = qha_run(c, ctx.scratch)
    h5 = os.path.join(ctx.scratch, 'q.hdf5')
    want = {k: np.array(calc.results[k]) for k in QKEYS}
    want['T'], want['P'] = np.array(calc.temperature), np.array(calc.pressure)
    units = {k: ('m' if k in UN else '') + c['eunit'] for k in want}
    units.update(T=c['tunit'], P=c['punit'], VT=c['lunit'], KT=c['punit'], KS=c['punit'], Kp='', gruneisen='', alphaV='K^-1')
    calc.export_hdf5(h5)
    with h5py.File(h5, 'r') as f:
        if f['VT'].attrs['unit'] == c['lunit'] + '^3':
            units['VT'] += '^3'
    stored(h5, want, units, [('Job:', c['title'].rstrip()), ('energy scale', c['eunit']), ('volume scale', c['lunit']),
                             ('frequency scale', c['funit']), ('temperature scale', c['tunit']), ('pressure scale', c['punit']),
                             ('calculation of thermo', 'frequency' if c['scheme'] == 'freq' else 'thermodynamic'),
                             ('volume mini', 'polynomial' if c['min'] == 'poly' else 'EoS')])
    reader_agrees(h5, want, units)
    exporter_agrees(QuantasQHAExport(), h5, want, 'TP', units)
    shape = (want['T'].size, want['P'].size)
    check(shape == (c['nt'], c['np']), 'grid of {} temperatures and pressures', shape)
    for k in QKEYS:
        check(want[k].shape == shape, '{} has shape {}', k, want[k].shape)
        same(calc.results[k], want[k], k + ' after the export')
    if np.isnan(want['VT']).any():
        ctx.note('with undefined points')
    ctx.interesting(want['VT'].size > 1)


# --- elastic ----------------------------------------------------------------------------------------------------------------
COLS = {'E': 2, 'LC': 3, 'G': 3, 'Nu': 4, 'waves': 4}
SUNIT = {'E': 'GPa', 'LC': 'TPa^-1', 'G': 'GPa', 'Nu': '', 'waves': 'km s^-1'}


@st.composite
def soec_case(draw):
    c = draw(el.tensors(spread=0.8, neg=True))
    c['rho'] = draw(st.one_of(st.just(0.), st.floats(500., 12000.)))
    c['polar'] = draw(st.sampled_from(['none', 'short', 'random', 'random']))
    c['nrad'] = draw(st.integers(1, 9))
    c['rseed'] = draw(st.integers(0, 2 ** 31 - 1))
    return c


def soec_calc(c, scratch, name='s.dat', run=False):
    from quantas.soec.soec import SOECCalculator
    C = el.make(c)
    path = os.path.join(scratch, name)
    with open(path, 'w') as f:
        f.write(el.soec_text(C, rho=c['rho'] or None))
    calc = SOECCalculator({'polar': False, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa', 'plotting': False,
                           'outfig': None, 'dpi': 80})
    err = calc.read_input(path)
    check(err is None, 'input refused: {}', err)
    if run:
        calc.run()
        check(calc.completed, 'run not completed: {}', calc.error)
    else:
        calc.results['avgs'] = calc.soec.averages()
        calc.results['eigv'] = sorted(np.linalg.eigvalsh(C))
    if c['polar'] == 'short':
        calc.calculate_polar_properties(nrad=c['nrad'])
    elif c['polar'] == 'random':
        rng = np.random.RandomState(c['rseed'])
        names = ['E', 'LC', 'G', 'Nu'] + (['waves'] if c['rho'] else [])
        pol = {p: {k: rng.uniform(-5., 300., (c['nrad'], COLS[k])) for k in names} for p in ('xy', 'xz', 'yz')}
        for p in pol:
            for k in names:
                pol[p][k][:, 0] = np.linspace(0., 360., c['nrad'])
        calc.results['polar'] = pol
    return calc, C


def soec_want(calc, C):
    want = {'stiffness': C, 'compliance': np.linalg.inv(C) * 1000., 'averages': np.array(calc.results['avgs']),
            'eigenvals': np.array(calc.results['eigv'])}
    units = {'stiffness': 'GPa', 'compliance': 'TPa^-1', 'averages': 'GPa', 'eigenvals': 'GPa'}
    for p, d in calc.results['polar'].items():
        for k, v in d.items():
            want['polar_{}_{}'.format(k, p)] = np.array(v)
            units['polar_{}_{}'.format(k, p)] = SUNIT[k]
    return want, units


def soec_check(c, ctx, run):
    from quantas.soec.utils.export import QuantasSOECExport
    C = el.make(c)
    if not el.stable(C, 5e-3):
        ctx.note('unstable, left out')
        return
    calc, C = soec_calc(c, ctx.scratch, run=run)
    want, units = soec_want(calc, C)
    h5 = os.path.join(ctx.scratch, 's.hdf5')
    calc.export_hdf5(h5)
    with h5py.File(h5, 'r') as f:
        close(f['stiffness'][()], want['stiffness'], rtol=1e-14, what='stiffness')
        close(f['compliance'][()], want['compliance'], rtol=1e-9, atol=1e-11 * np.abs(want['compliance']).max(), what='compliance')
        want['stiffness'], want['compliance'] = f['stiffness'][()], f['compliance'][()]
    stored(h5, want, units, [('pressure scale', 'GPa'), ('density', 'kg m^-3')])
    reader_agrees(h5, want, units)
    ex = QuantasSOECExport()
    ex.load(h5)
    pol = {k: v for k, v in want.items() if k.startswith('polar_')}
    if not pol:
        check(ex.error is not None, 'the exporter accepts results without polar sections')
    else:
        check(ex.error is None, 'the exporter reports {!r}', ex.error)
        check(sorted(ex.data) == sorted(pol), 'the exporter holds {}', sorted(ex.data))
        for k, v in pol.items():
            same(ex.data[k]['values'], v, k + ' in the exporter')
        check(('waves' in ex.keys) == bool(c['rho']), 'the exporter offers {}', ex.keys)
    ctx.note('polar ' + c['polar'])
    ctx.interesting(True)


def soec_body(c, ctx):
    soec_check(c, ctx, False)


@st.composite
def soec_run_case(draw):
    c = draw(soec_case())
    c['polar'] = draw(st.sampled_from(['none', 'none', 'short']))
    return c


def soec_run_body(c, ctx):
    soec_check(c, ctx, True)


# --- foreign and damaged files ------------------------------------------------------------------------------------------------
KINDS = ['text', 'empty', 'bytes', 'yaml', 'truncated', 'other', 'noinfo', 'nodata', 'noaxis', 'nounit', 'foreign', 'group']


@st.composite
def foreign_case(draw):
    return {'kind': draw(st.sampled_from(KINDS)), 'cmd': draw(st.sampled_from(['ha', 'qha', 'soec'])),
            'base': draw(st.sampled_from(['ha', 'qha', 'soec'])), 'seed': draw(st.integers(0, 10 ** 6)), 'cut': draw(st.floats(0.02, 0.98))}


def result_file(kind, path):
    """a small well-formed result file of the calculators' own layout"""
    rng = np.random.RandomState(7)
    with h5py.File(path, 'w') as f:
        if kind == 'soec':
            f.attrs['info'] = '\nThis file was created with Quantas.\n\nSOECs\n'
            for k, shape, u in [('stiffness', (6, 6), 'GPa'), ('compliance', (6, 6), 'TPa^-1'), ('averages', (3, 4), 'GPa'), ('eigenvals', (6,), 'GPa')] + \
                    [('polar_%s_%s' % (k, p), (5, n), SUNIT[k]) for k, n in COLS.items() for p in ('xy', 'xz', 'yz')]:
                d = f.create_dataset(k, data=rng.rand(*shape))
                d.attrs['unit'] = u
            return
        f.attrs['info'] = '\nThis file was created with Quantas.\n\nResults ({})\n'.format(kind.upper())
        ax = 'V' if kind == 'ha' else 'P'
        for k, shape, u in [('T', (3,), 'K'), (ax, (2,), 'A' if kind == 'ha' else 'GPa'), ('F', (3, 2), 'Ha'), ('Cv', (3, 2), 'mHa')]:
            d = f.create_dataset(k, data=rng.rand(*shape))
            d.attrs['desc'] = k
            d.attrs['unit'] = u


AXES = {'ha': ['T', 'V'], 'qha': ['T', 'P'], 'soec': ['stiffness']}


def foreign_body(c, ctx):
    from quantas.cmdline.commands.cmd_quantas import cli
    from quantas.harmonic.utils.export import QuantasHarmonicExport
    from quantas.qha.utils.export import QuantasQHAExport
    from quantas.soec.utils.export import QuantasSOECExport
    path = os.path.join(ctx.scratch, 'foreign.hdf5')
    rng = np.random.RandomState(c['seed'])
    kind, cmd = c['kind'], c['cmd']
    base = c['base'] if kind == 'other' else cmd
    if kind == 'other' and base == cmd:
        base = {'ha': 'qha', 'qha': 'soec', 'soec': 'ha'}[cmd]
    if kind in ('text', 'empty', 'bytes', 'yaml'):
        with open(path, 'wb') as f:
            f.write({'text': b'Results\n1 2 3\n', 'empty': b'', 'bytes': rng.bytes(3000),
                     'yaml': b'job: x\nnatom: 2\nvolume: [1, 2]\n'}[kind])
    else:
        result_file(base, path)
        if kind == 'truncated':
            with open(path, 'rb') as f:
                b = f.read()
            with open(path, 'wb') as f:
                f.write(b[:int(len(b) * c['cut'])])
        elif kind in ('noinfo', 'nodata', 'noaxis', 'nounit', 'group'):
            with h5py.File(path, 'a') as f:
                ax = AXES[cmd][c['seed'] % len(AXES[cmd])]
                if kind == 'noinfo':
                    del f.attrs['info']
                elif kind == 'nodata':
                    for k in list(f.keys()):
                        del f[k]
                elif kind == 'noaxis':
                    del f[ax]
                elif kind == 'nounit':
                    if cmd == 'soec':
                        del f['stiffness']
                    else:
                        del f[ax].attrs['unit']
                elif kind == 'group':
                    del f[ax]
        elif kind == 'foreign':
            with h5py.File(path, 'w') as f:
                f.attrs['title'] = 'another program'
                f.create_dataset('x', data=rng.rand(4))
                f.create_group('g')
    ex = {'ha': QuantasHarmonicExport, 'qha': QuantasQHAExport, 'soec': QuantasSOECExport}[cmd]()
    ex.load(path)
    check(isinstance(ex.error, str) and ex.error, 'export {} accepts a {} file', cmd, kind)
    before = sorted(os.listdir(ctx.scratch))
    r = CliRunner().invoke(cli, ['export', cmd, path], input='F\nn\n')
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        fail('export {} of a {} file stopped with {!r}', cmd, kind, r.exception)
    check(ex.error in r.output.replace('\n', ' ') or ex.error in r.output, 'the error is not shown: {!r}', r.output[-200:])
    check(sorted(os.listdir(ctx.scratch)) == before, 'files were written: {}', sorted(os.listdir(ctx.scratch)))
    # the same object reads a good file afterwards
    good = os.path.join(ctx.scratch, 'good.hdf5')
    result_file(cmd, good)
    ex.load(good)
    check(ex.error is None, 'a good file is refused after a {} file: {!r}', kind, ex.error)
    ctx.note(kind)
    ctx.interesting(True)


SUBS = [Sub('harmonic', ha_case, ha_body, quick=200, thorough=5000, shards=(2, 8)),
        Sub('quasi-harmonic', qha_case, qha_body, quick=80, thorough=1500, shards=(3, 8)),
        Sub('large', large_case, qha_body, quick=12, thorough=200, shards=(3, 8), hang=200),
        Sub('large-ha', large_ha, ha_body, quick=12, thorough=300, shards=(2, 8)),
        Sub('elastic', soec_case, soec_body, quick=60, thorough=1200, shards=(2, 8)),
        Sub('elastic-run', soec_run_case, soec_run_body, quick=3, thorough=30, shards=(2, 8), hang=300),
        Sub('foreign', foreign_case, foreign_body, quick=150, thorough=3000, shards=(2, 8))]
