"""P24: exported text tables and printed reports."""
import builtins
import io
import os
import re
from contextlib import redirect_stdout
import numpy as np
import h5py
from click.testing import CliRunner
from hypothesis import strategies as st
from vlib import elastic as el
from vlib.core import Sub, check, close, fail
from props import p23

RULE = ('Generated: result files of the three calculators and of the seismic analysis with values over thirty decades, negative, '
        'zero and undefined, every shape from one point up, all quantities and units; sequences of exports of several files and '
        'quantities with existing outputs, refused overwriting and mistyped names; real runs whose reports are parsed. Oracle: every '
        'number of the table, at its row and column, is the stored one to the printed digits. Non-trivial: more than one row and '
        'column / more than one export in the session.')
ASSUMPTIONS = ['values of an elastic table stay below 1e8, so that its fixed-width columns do not touch',
               'the seismic result file is made by hand (quantas.seismic.seismic cannot be imported: quantas/core/plotter.py is missing upstream)']

ETYPE = dict(rtol=6e-13, atol=0.)
FIX8 = dict(rtol=1e-14, atol=5.1e-9)
STYLE = {'VT': FIX8, 'KT': FIX8, 'KS': FIX8, 'Kp': FIX8, 'V': FIX8, 'P': FIX8, 'T': dict(rtol=1e-14, atol=5.1e-3)}
DESC = {'T': 'Temperature', 'P': 'Pressure', 'V': 'Unit cell volume', 'U0': 'Static (electronic) energies', 'Uzp': 'Zero-point energy', 'Uth': 'Thermal energy',
        'Utot': 'Total (vibrational + static) internal energy', 'S': 'Entropy', 'Fvib': 'Vibrational Helmholtz free energy',
        'F': 'Helmholtz free energy', 'Cv': 'Isochoric heat capacity', 'VT': 'Unit cell volume', 'Cp': 'Isobaric heat capacity',
        'Cp-Cv': 'Correction for isobaric heat capacity', 'KT': 'Isothermal bulk modulus', 'KS': 'Adiabatic bulk modulus',
        'Kp': 'First-derivative of bulk modulus', 'alphaV': 'Volumetric coefficient of thermal expansion', 'H': 'Enthalpy',
        'G': 'Gibbs free energy', 'gruneisen': 'Gr\u00fcneisen parameters'}
HKEYS = ('U0', 'Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv')


# --- hand-made result files ---------------------------------------------------------------------------------------------------
@st.composite
def content(draw, kind=None):
    kind = kind or draw(st.sampled_from(['ha', 'qha', 'soec']))
    return {'kind': kind, 'nt': draw(st.integers(1, 7)), 'np': draw(st.integers(1, 5)), 'seed': draw(st.integers(0, 2 ** 31 - 1)),
            'eunit': draw(st.sampled_from(['Ha', 'eV', 'Ry'])), 'lunit': draw(st.sampled_from(['A', 'bohr'])),
            'tunit': draw(st.sampled_from(['K', 'C'])), 'punit': draw(st.sampled_from(['GPa', 'kbar'])),
            'special': draw(st.sampled_from([0., 0., 0.2])), 'waves': draw(st.booleans()), 'dt': draw(st.sampled_from([0.25, 1., 10., 33.37]))}


def make(c):
    """datasets and units of one file"""
    rng = np.random.RandomState(c['seed'])
    nt, m = c['nt'], c['np']

    def values(shape, lo=-12, hi=6, positive=False, special=True):
        v = 10. ** rng.uniform(lo, hi, shape)
        if not positive:
            v = v * rng.choice([-1., 1.], shape)
        if special and c['special']:
            r = rng.rand(*np.atleast_1d(v).shape).reshape(np.shape(v))
            v = np.where(r < c['special'], np.where(r < c['special'] / 2, 0., np.nan), v)
        return v
    d, u = {}, {}
    if c['kind'] == 'soec':
        deg = np.degrees(np.linspace(0., 2. * np.pi, 3 * nt))
        for k, n in p23.COLS.items():
            if k == 'waves' and not c['waves']:
                continue
            for p in ('xy', 'xz', 'yz'):
                d['polar_%s_%s' % (k, p)] = np.column_stack((deg, values((deg.size, n - 1), -3, 5)))
                u['polar_%s_%s' % (k, p)] = p23.SUNIT[k]
        for k, s, un in [('stiffness', (6, 6), 'GPa'), ('compliance', (6, 6), 'TPa^-1'), ('averages', (3, 4), 'GPa'), ('eigenvals', (6,), 'GPa')]:
            d[k], u[k] = values(s, 0, 3), un
        return d, u
    d['T'], u['T'] = np.round(rng.uniform(0., 300.), 1) + c['dt'] * np.arange(nt), c['tunit']
    if c['kind'] == 'ha':
        d['V'], u['V'] = np.sort(values((m,), 1, 3.5, True, False)), c['lunit']
        keys = HKEYS
    else:
        d['P'], u['P'] = rng.uniform(-5, 100) + rng.uniform(0.5, 30) * np.arange(m), c['punit']
        keys = p23.QKEYS
    for k in keys:
        u[k] = ('m' if k in p23.UN else '') + c['eunit']
        if k in ('KT', 'KS', 'VT', 'Kp'):
            d[k] = values((nt, m), -4, 4)
            u[k] = {'VT': c['lunit'], 'Kp': ''}.get(k, c['punit'])
        elif k in ('alphaV', 'gruneisen'):
            d[k] = values((nt, m), -9, 1)
            u[k] = 'K^-1' if k == 'alphaV' else ''
        else:
            d[k] = values({'U0': (m,), 'Uzp': (1, m)}.get(k, (nt, m)) if c['kind'] == 'ha' else (nt, m))
    return d, u


def put(c, path):
    d, u = make(c)
    with h5py.File(path, 'w') as f:
        f.attrs['info'] = '\nThis file was created with Quantas.\n\nResults of the {} ({}) calculations\n'.format(c['kind'], c['kind'].upper())
        for k, v in d.items():
            s = f.create_dataset(k, data=v)
            s.attrs['desc'] = DESC.get(k, k)
            s.attrs['unit'] = u[k]
    return d, u


# --- reading tables -----------------------------------------------------------------------------------------------------------
def numbers(line):
    out = []
    for t in line.split():
        try:
            out.append(float(t))
        except ValueError:
            return None
    return out


def table(path):
    """(lines above the table, numeric rows); the rows of numbers are found by their form"""
    with open(path, encoding='utf8') as f:
        lines = f.read().splitlines()
    rows = [(i, numbers(l)) for i, l in enumerate(lines)]
    rows = [(i, r) for i, r in rows if r]
    first = rows[0][0] if rows else len(lines)
    return '\n'.join(lines[:first]), [r for _, r in rows]


def grid_table(path, d, u, key, axes):
    head, rows = table(path)
    x, y = d[axes[0]], d[axes[1]]
    z = np.broadcast_to(d[key], (x.size, y.size))
    check(len(rows) == x.size + 1, '{}: {} rows of numbers for {} grid rows', key, len(rows), x.size)
    check(len(rows[0]) == y.size, '{}: {} column headings for {} columns', key, len(rows[0]), y.size)
    close(rows[0], y, what='column headings of ' + key, **STYLE[axes[1]])
    for i in range(x.size):
        r = rows[i + 1]
        check(len(r) == y.size + 1, '{}: row {} holds {} numbers for {} columns', key, i, len(r), y.size)
        close(r[0], x[i], what='row heading {} of {}'.format(i, key), **STYLE['T'])
        close(r[1:], z[i], what='row {} of {}'.format(i, key), **STYLE.get(key, ETYPE))
    return head


def soec_table(path, d, u, key):
    head, rows = table(path)
    parts = [d['polar_%s_%s' % (key, p)] for p in ('xy', 'xz', 'yz')]
    want = np.column_stack([parts[0]] + [p[:, 1:] for p in parts[1:]])
    check(len(rows) == want.shape[0], '{}: {} rows for {} angles', key, len(rows), want.shape[0])
    for i, r in enumerate(rows):
        check(len(r) == want.shape[1], '{}: {} columns instead of {}', key, len(r), want.shape[1])
        close(r[0], want[i, 0], rtol=1e-14, atol=0.0501, what='angle {} of {}'.format(i, key))
        close(r[1:], want[i, 1:], rtol=1e-14, atol=5.01e-5, what='row {} of {}'.format(i, key))
    pos = [head.find('({})'.format(p)) for p in ('xy', 'xz', 'yz')]
    check(-1 < pos[0] < pos[1] < pos[2], '{}: planes are headed {}', key, head.splitlines()[-3:])
    return head


def check_table(path, c, d, u, key):
    if c['kind'] == 'soec':
        head = soec_table(path, d, u, key)
        unit = p23.SUNIT[key]
    else:
        axes = 'TV' if c['kind'] == 'ha' else 'TP'
        head = grid_table(path, d, u, key, axes)
        unit = u[key]
        check('T ({})'.format(u['T']) in head, '{}: the temperature unit {} is not declared:\n{}', key, u['T'], head)
        lab = 'V ({}^3)'.format(u['V']) if c['kind'] == 'ha' else 'P ({})'.format(u['P'])
        check(lab in head, '{}: {} is not declared:\n{}', key, lab, head)
    m = re.findall(r'Data in (.+) units', head)
    if unit:
        check(m == [unit], '{}: data declared in {} instead of {}', key, m, unit)
    else:
        check(not m and 'dimensional' in head, '{}: declared in {}', key, m)


def keys_of(c):
    if c['kind'] == 'ha':
        return list(HKEYS)
    if c['kind'] == 'qha':
        return list(p23.QKEYS)
    return ['E', 'LC', 'G', 'Nu'] + (['waves'] if c['waves'] else [])


# --- single file, every quantity ----------------------------------------------------------------------------------------------
def export(cmd, path, answers):
    from quantas.cmdline.commands.cmd_quantas import cli
    r = CliRunner().invoke(cli, ['export', cmd, path], input='\n'.join(answers) + '\n')
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        fail('export {} stopped with {!r}: {}', cmd, r.exception, r.output[-300:])
    check(r.exit_code == 0, 'export {} ended with status {}: {}', cmd, r.exit_code, r.output[-300:])
    return r.output


def snapshot(scratch):
    out = {}
    for n in sorted(os.listdir(scratch)):
        if os.path.isdir(os.path.join(scratch, n)):      # the working directory, to stay empty
            check(not os.listdir(os.path.join(scratch, n)), 'files written in the working directory: {}', os.listdir(os.path.join(scratch, n)))
            continue
        with open(os.path.join(scratch, n), 'rb') as f:
            out[n] = f.read()
    return out


def go_away(c, ctx):
    """work in another folder than the one of the files"""
    if c.get('away'):
        os.mkdir(os.path.join(ctx.scratch, 'away'))
        os.chdir(os.path.join(ctx.scratch, 'away'))


def all_body(c, ctx):
    path = os.path.join(ctx.scratch, 'res.hdf5')
    d, u = put(c, path)
    before = snapshot(ctx.scratch)
    keys = keys_of(c)
    answers = []
    for k in keys:
        answers += [k, 'y']
    answers[-1] = 'n'
    export(c['kind'], path, answers)
    after = snapshot(ctx.scratch)
    names = {'res_{}.dat'.format(k): k for k in keys}
    check(sorted(after) == sorted(list(names) + ['res.hdf5']), 'files after the export: {}', sorted(after))
    check(after['res.hdf5'] == before['res.hdf5'], 'the result file has changed')
    for n, k in names.items():
        check_table(os.path.join(ctx.scratch, n), c, d, u, k)
    ctx.note(c['kind'])
    ctx.interesting(c['nt'] > 1 and c['np'] > 1)


# --- sessions -----------------------------------------------------------------------------------------------------------------
@st.composite
def session_case(draw):
    files = draw(st.lists(content(), min_size=1, max_size=3))
    n = draw(st.integers(2, 5))
    ops = [{'file': draw(st.integers(0, len(files) - 1)), 'keys': draw(st.lists(st.integers(0, 16), min_size=1, max_size=3)),
            'refuse': draw(st.booleans()), 'typo': draw(st.sampled_from([False, False, True]))} for _ in range(n)]
    return {'files': files, 'ops': ops, 'object': draw(st.booleans()), 'away': draw(st.booleans())}


def run_object(ex, path, answers):
    import click

    @click.command()
    def command():
        ex.load(path)
        if ex.error is not None:
            fail('the exporter reports {!r}', ex.error)
        ex.run()
    r = CliRunner().invoke(command, [], input='\n'.join(answers) + '\n', catch_exceptions=False)
    return r.output


def session_body(c, ctx):
    from quantas.harmonic.utils.export import QuantasHarmonicExport
    from quantas.qha.utils.export import QuantasQHAExport
    from quantas.soec.utils.export import QuantasSOECExport
    contents, shown = [], {}
    go_away(c, ctx)
    objects = {'ha': QuantasHarmonicExport(), 'qha': QuantasQHAExport(), 'soec': QuantasSOECExport()}
    for i, f in enumerate(c['files']):
        contents.append(put(f, os.path.join(ctx.scratch, 'f{}.hdf5'.format(i))))
    count = 0
    for op in c['ops']:
        f = c['files'][op['file']]
        d, u = contents[op['file']]
        base = 'f{}'.format(op['file'])
        keys = keys_of(f)
        answers = []
        for j in op['keys']:
            k = keys[j % len(keys)]
            name = '{}_{}.dat'.format(base, k)
            if op['typo']:
                answers.append('no such thing')
            answers.append(k)
            if name in shown:
                if op['refuse']:
                    name = 'new{}.txt'.format(count)
                    answers += ['n', os.path.join(ctx.scratch, name)]
                else:
                    answers.append('y')
            shown[name] = (op['file'], k)
            answers.append('y')
            count += 1
        answers[-1] = 'n'
        path = os.path.join(ctx.scratch, base + '.hdf5')
        before = snapshot(ctx.scratch)
        if c['object']:
            run_object(objects[f['kind']], path, answers)
        else:
            export(f['kind'], path, answers)
        after = snapshot(ctx.scratch)
        want = sorted(list(shown) + ['f{}.hdf5'.format(i) for i in range(len(c['files']))])
        check(sorted(after) == want, 'files after the export: {} instead of {}', sorted(after), want)
        for n in before:
            if n.endswith('.hdf5'):
                check(after[n] == before[n], '{} has changed', n)
    for n, (i, k) in shown.items():
        check_table(os.path.join(ctx.scratch, n), c['files'][i], contents[i][0], contents[i][1], k)
    ctx.note('objects' if c['object'] else 'commands')
    ctx.interesting(count > 1)


# --- the generic exporter -------------------------------------------------------------------------------------------------------
@st.composite
def generic_case(draw):
    files = draw(st.lists(st.sampled_from(['ha', 'qha']).flatmap(content), min_size=1, max_size=2))
    return {'files': files, 'keys': [draw(st.lists(st.integers(0, 16), min_size=1, max_size=3)) for _ in files],
            'named': draw(st.booleans()), 'typo': draw(st.booleans()), 'help': draw(st.booleans()), 'end': draw(st.sampled_from(['n', '', 'N', 'quit'])), 'away': draw(st.booleans())}


def generic_body(c, ctx):
    from quantas.IO.hdf5_export import QuantasHDF5Export
    ex = QuantasHDF5Export()
    go_away(c, ctx)
    for i, f in enumerate(c['files']):
        path = os.path.join(ctx.scratch, 'g{}.hdf5'.format(i))
        d, u = put(f, path)
        keys = keys_of(f)
        err = ex.read_input(path)
        check(err is None, 'the result file is refused: {}', err)
        answers, made = [], {}
        for n, j in enumerate(c['keys'][i]):
            k = keys[j % len(keys)]
            if c['help']:
                answers.append('help')
            if c['typo']:
                answers.append('nothing')
            name = os.path.join(ctx.scratch, 'g{}_{}.dat'.format(i, k))
            if c['named']:
                name = os.path.join(ctx.scratch, 'named {} {}'.format(i, n))
            made[name] = k
            answers += [k, name if c['named'] else '', 'y']
        if c['end'] == 'quit':
            answers.append('quit')
        else:
            answers[-1] = c['end']
        it = iter(answers)
        out, real = io.StringIO(), builtins.input
        builtins.input = lambda *a: next(it)
        try:
            with redirect_stdout(out):
                ex.run()
        except StopIteration:
            fail('the exporter asks for more than {}', answers)
        finally:
            builtins.input = real
        check(next(it, None) is None, 'answers left over')
        snapshot(ctx.scratch)
        for name, k in made.items():
            check(os.path.exists(name), '{} was not written: {}', name, sorted(os.listdir(ctx.scratch)))
            head = grid_table(name, d, u, k, 'TV' if f['kind'] == 'ha' else 'TP')
            check(DESC[k] in head and 'Data in {} units'.format(u[k]) in head, 'heading of {}:\n{}', k, head)
    ctx.interesting(len(c['files']) > 1 or len(c['keys'][0]) > 1)


# --- seismic results ------------------------------------------------------------------------------------------------------------
SINFO = """
This file was created with Quantas.

It contains the results of the Christoffel equation appliet to the second-order
elastic constants (SOECs, matrix in Voigt's notation), performed with the
following settings:
  - pressure scale:    GPa
  - density: kg m^-3

This file contains three datasets:
  - slow secondary data (ssecondary)
  - fast secondary data (fsecondary)
  - primary data (primary)

Each dataset contains the following results (measurement unit):
  - Column 1     : Theta angle (rad)
"""
SDIG = [6, 6, 5, 3, 4, 4, 4, 5, 3, 5, 5, 5, 4, 4]


@st.composite
def seismic_case(draw):
    return {'n': draw(st.lists(st.integers(1, 30), min_size=1, max_size=2)), 'seed': draw(st.integers(0, 2 ** 31 - 1)),
            'order': draw(st.lists(st.sampled_from(['ssecondary', 'fsecondary', 'primary']), min_size=1, max_size=4))}


def seismic_body(c, ctx):
    from quantas.seismic.utils.export import QuantasSeismicExport
    ex = QuantasSeismicExport()
    rng = np.random.RandomState(c['seed'])
    for i, n in enumerate(c['n']):
        path = os.path.join(ctx.scratch, 's{}.hdf5'.format(i))
        data = {k: np.column_stack([rng.uniform(0., 6.3, (n, 2)), rng.uniform(0., 15., n), rng.uniform(-100., 100., n), rng.uniform(-1., 1., (n, 3)),
                                    rng.uniform(0., 15., n), rng.uniform(-100., 100., n), rng.uniform(-15., 15., (n, 3)),
                                    rng.uniform(0., 90., n), rng.uniform(-3., 3., n)]) for k in ('ssecondary', 'fsecondary', 'primary')}
        with h5py.File(path, 'w') as f:
            f.attrs['info'] = SINFO
            for k, v in data.items():
                f.create_dataset(k, data=v)
        shown, answers = {}, []
        for j, k in enumerate(c['order']):
            name = 's{}_{}.dat'.format(i, k)
            answers.append(k)
            if name in shown:
                name = 'again{}_{}.txt'.format(i, j)
                answers += ['n', os.path.join(ctx.scratch, name)]
            shown[name] = k
            answers.append('y')
        answers[-1] = 'n'
        run_object(ex, path, answers)
        for name, k in shown.items():
            with open(os.path.join(ctx.scratch, name)) as f:
                text = f.read()
            rows = [r for r in (numbers(l) for l in text.splitlines()) if r]
            check(len(rows) == n, '{}: {} rows for {} directions', k, len(rows), n)
            close(rows, data[k], rtol=1e-14, atol=np.array([0.501 * 10. ** -s for s in SDIG]), what=k)
            for o in data:
                check(('({})'.format(o) in text) == (o == k), 'the heading of {} names {}', k, o)
    ctx.interesting(len(c['order']) > 1)


# --- reports of the runs ----------------------------------------------------------------------------------------------------------
def logged(calc, path, action):
    calc.log = path
    calc.silent = True
    action()
    calc.log = None
    with open(path, encoding='utf8') as f:
        return f.read().splitlines()


def after(lines, word, what):
    for i, l in enumerate(lines):
        if word in l:
            return lines[i:]
    fail('{}: the report has no line with {!r}', what, word)


def input_table(lines, ncol):
    sec = after(lines, 'Volume and energy values', 'input report')
    return [r for r in (numbers(l) for l in sec) if r and len(r) == ncol]


def ha_report_body(c, ctx):
    from vlib import phin
    calc = p23.ha_run(c, ctx.scratch)
    lines = logged(calc, os.path.join(ctx.scratch, 'log'), calc.report_input_data)
    check(any(l.startswith('Job:') and l[4:].strip() == c['title'].strip() for l in lines), 'title {!r} is not reported', c['title'])
    rows = input_table(lines, 2)
    v = np.array(c['vols']) * phin.LUNIT[c['lunit']] ** 3
    e = np.array(c['en']) * phin.EUNIT[c['eunit']]
    check(len(rows) == v.size, 'the report lists {} volumes instead of {}', len(rows), v.size)
    close([r[0] for r in rows], v, rtol=1e-9, atol=5.1e-7, what='reported volumes')
    close([r[1] for r in rows], e, rtol=6e-13, what='reported energies')
    check(any('(' + c['eunit'] + ')' in l and '(' + c['lunit'] + '^3)' in l for l in lines), 'units {} and {} are not reported', c['eunit'], c['lunit'])
    sizes = {'Number of volumes': v.size, 'Number of atoms': c['nat']}
    for k, n in sizes.items():
        check(any(k in l and l.split()[-1] == str(n) for l in lines), '{} {} is not reported', k, n)
    ctx.interesting(v.size > 1)


def qha_report_body(c, ctx):
    calc = p23.qha_run(c, ctx.scratch)
    res, eh = calc.results, {'Ha': 2625.4996394799, 'Ry': 1312.74981973995, 'eV': 96.48533212331}[c['eunit']]
    lines = logged(calc, os.path.join(ctx.scratch, 'log'), calc.report_results)
    blocks = [i for i, l in enumerate(lines) if 'Results at' in l]
    check(len(blocks) == len(calc.pressure), '{} blocks for {} pressures', len(blocks), len(calc.pressure))
    for k, b in enumerate(blocks):
        words = lines[b].split()
        j = words.index('at')
        close(float(words[j + 1]), calc.pressure[k], rtol=1e-9, what='pressure of the block')
        check(words[j + 2].strip('#') == c['punit'], 'pressure unit of the block: {}', lines[b])
        end = blocks[k + 1] if k + 1 < len(blocks) else len(lines)
        sec = lines[b:end]
        head = [l for l in sec if 'a_V' in l]
        check(len(head) == 1 and head[0].index('T (' + c['tunit']) < head[0].index('V(T) ({}^3)'.format(c['lunit'])) < head[0].index('a_V') <
              head[0].index('KT ({})'.format(c['punit'])) < head[0].index('KS ({})'.format(c['punit'])) < head[0].index('Cp-Cv (J/mol K)'), 'heading {!r}', head)
        rows = [r for r in (numbers(l) for l in sec) if r]
        check(len(rows) == len(calc.temperature), '{} rows for {} temperatures', len(rows), len(calc.temperature))
        for i, r in enumerate(rows):
            want = [calc.temperature[i], res['VT'][i][k], res['alphaV'][i][k], res['KT'][i][k], res['KS'][i][k], res['Cp-Cv'][i][k] * eh]
            tol = [5.01e-2, 5.01e-7, 0, 5.01e-4, 5.01e-4, 5.01e-7]
            check(len(r) == 6, 'row of {} numbers', len(r))
            close(r, want, rtol=[0, 0, 6e-9, 0, 0, 1e-7], atol=np.array(tol), what='row {} at pressure {}'.format(i, k))
    lines = logged(calc, os.path.join(ctx.scratch, 'log2'), calc.report_input_data)
    rows = input_table(lines, 3)
    from vlib import phin
    v = np.array(calc.volume)
    check(len(rows) == v.size, 'the input report lists {} volumes', len(rows))
    close([r[1] for r in rows], v, rtol=0, atol=5.1e-7, what='reported volumes')
    close([r[2] for r in rows], calc.static_energy, rtol=6e-13, what='reported energies')
    ctx.interesting(len(calc.temperature) > 1)


LABELS = ['Voigt', 'Reuss', 'Hill']


@st.composite
def soec_report_case(draw):
    c = draw(p23.soec_case())
    c['polar'] = 'none'
    c['fake'] = draw(st.integers(0, 2 ** 31 - 1))
    return c


def cells(lines, label, n):
    """rows of the block of lines between two frames holding n numbers, label removed"""
    out = []
    for l in lines:
        r = numbers(re.sub(r'^(\s*)(Values|Anisotropy|Axis|1st Axis|2nd Axis)', r'\1', l).replace('|', ' '))
        if r and len(r) == n:
            out.append(r)
    return out


def soec_report_body(c, ctx):
    C = el.make(c)
    if not el.stable(C, 5e-3):
        ctx.note('unstable, left out')
        return
    calc, C = p23.soec_calc(c, ctx.scratch)
    lines = logged(calc, os.path.join(ctx.scratch, 'log'), calc.report_input_data)
    S = np.linalg.inv(C) * 1000.
    for word, m, tol in (('Stiffness matrix', C, None), ('Compliance tensor', S, None)):
        rows = [r for r in (numbers(l) for l in after(lines, word, 'input')[1:]) if r and len(r) == 6][:6]
        check(len(rows) == 6, 'the {} is not reported', word)
        # the number of printed digits is read from the report itself
        close(rows, m, rtol=1e-9, atol=5.1e-3, what='reported ' + word)
    if c['rho']:
        l = [x for x in lines if 'Density' in x][0]
        close(float(l.split(':')[1].split()[0]), c['rho'], rtol=1e-9, what='reported density')
    avg = np.asarray(calc.soec.averages())
    eig = np.linalg.eigvalsh(C)
    awv = calc.soec.seismic_average_velocities() if hasattr(calc.soec, 'seismic_average_velocities') else np.array([1.25, 1.25, 2.75]) * (1 if c['rho'] else np.nan)
    lines = logged(calc, os.path.join(ctx.scratch, 'log2'), lambda: calc.report_initial_results(avg, eig, awv))
    for i, n in enumerate(LABELS):
        row = [l for l in lines if l.strip().startswith(n)]
        check(len(row) == 1, 'the {} averages are not reported', n)
        close(numbers(row[0].strip()[len(n):]), avg[i], rtol=1e-12, atol=5.01e-6, what='reported {} averages'.format(n))
    got = [float(l.split(':')[1]) for l in lines if 'lambda_' in l]
    close(got, eig, rtol=1e-12, atol=5.01e-6, what='reported eigenvalues')
    waves = [l for l in lines if 'km/s' in l]
    check(len(waves) == (0 if np.isnan(awv[0]) else 2), 'velocities reported: {}', waves)
    for l in waves:
        close(float(l.split(':')[1].split()[0]), awv[2] if 'Longit' in l else awv[0], atol=5.01e-6, what='reported velocity')
    # tables of the variations, with recognisable numbers
    rng = np.random.RandomState(c['fake'])

    def var(two):
        return [tuple(rng.uniform(-50., 900., 2)), rng.uniform(1., 99.)] + [rng.uniform(-1., 1., 3) for _ in range(2)] + \
            ([rng.uniform(-1., 1., 3) for _ in range(2)] if two else [None, None])
    a, b = var(False), var(False)
    lines = logged(calc, os.path.join(ctx.scratch, 'log3'), lambda: calc.report_variation_single(a, b))
    want = [list(a[0]) + list(b[0])] + [[a[2][i], a[3][i], b[2][i], b[3][i]] for i in range(3)]
    close(cells(lines, '', 4), want, atol=5.01e-5, what='table of Young modulus and compressibility')
    close(cells(lines, '', 2), [[a[1], b[1]]], atol=5.01e-5, what='anisotropies')
    a, b = var(True), var(True)
    lines = logged(calc, os.path.join(ctx.scratch, 'log4'), lambda: calc.report_variation_dual(a, b))
    want = [list(a[0]) + list(b[0])] + [[a[k][i], a[k + 1][i], b[k][i], b[k + 1][i]] for k in (2, 4) for i in range(3)]
    got = cells([l.replace('1st', '').replace('2nd', '') for l in lines], '', 4)
    close(got, want, atol=5.01e-5, what='table of shear modulus and Poisson ratio')
    close(cells(lines, '', 2), [[a[1], b[1]]], atol=5.01e-5, what='anisotropies')
    p, s1, s2 = var(False), var(False), var(False)
    lines = logged(calc, os.path.join(ctx.scratch, 'log5'), lambda: calc.report_variation_seismic(p, s1, s2))
    want = [list(s1[0]) + list(s2[0]) + list(p[0])] + [[x[k][i] for x in (s1, s2, p) for k in (2, 3)] for i in range(3)]
    close(cells(lines, '', 6), want, atol=5.01e-5, what='table of velocities')
    close(cells(lines, '', 3), [[s1[1], s2[1], p[1]]], atol=5.01e-5, what='anisotropies of velocities')
    ctx.interesting(True)


# --- runs through to the tables -----------------------------------------------------------------------------------------------------
@st.composite
def chain_case(draw):
    if draw(st.booleans()):
        return {'kind': 'ha', 'c': draw(p23.ha_case())}
    return {'kind': 'qha', 'c': draw(p23.qha_case())}


def chain_body(cc, ctx):
    c, kind = cc['c'], cc['kind']
    calc = (p23.ha_run if kind == 'ha' else p23.qha_run)(c, ctx.scratch)
    path = os.path.join(ctx.scratch, 'r.hdf5')
    calc.export_hdf5(path)
    d = {k: np.array(v) for k, v in calc.results.items() if k in (HKEYS if kind == 'ha' else p23.QKEYS)}
    d['T'] = np.array(calc.temperature)
    if kind == 'ha':
        from vlib import phin
        d['V'] = np.array(c['vols']) * phin.LUNIT[c['lunit']] ** 3
        d['U0'] = np.array(c['en']) * phin.EUNIT[c['eunit']]
    else:
        d['P'] = np.array(calc.pressure)
    u = {k: ('m' if k in p23.UN else '') + c['eunit'] for k in d}
    u.update(T=c['tunit'], V=c['lunit'], P=c.get('punit'), VT=c['lunit'], KT=c.get('punit'), KS=c.get('punit'), Kp='', gruneisen='', alphaV='K^-1')
    keys = HKEYS if kind == 'ha' else p23.QKEYS
    answers = []
    for k in keys:
        answers += [k, 'y']
    answers[-1] = 'n'
    export(kind, path, answers)
    for k in keys:
        check_table(os.path.join(ctx.scratch, 'r_{}.dat'.format(k)), {'kind': kind}, d, u, k)
    ctx.note(kind)
    ctx.interesting(d['F'].size > 1)


SUBS = [Sub('tables', content, all_body, quick=80, thorough=2000, shards=(2, 8)),
        Sub('sessions', session_case, session_body, quick=60, thorough=1500, shards=(2, 8)),
        Sub('generic', generic_case, generic_body, quick=120, thorough=2500, shards=(1, 8)),
        Sub('seismic', seismic_case, seismic_body, quick=100, thorough=2000, shards=(1, 4)),
        Sub('harmonic-report', p23.ha_case, ha_report_body, quick=150, thorough=3000, shards=(1, 4)),
        Sub('qha-report', p23.qha_case, qha_report_body, quick=60, thorough=1200, shards=(2, 8)),
        Sub('elastic-report', soec_report_case, soec_report_body, quick=100, thorough=2000, shards=(1, 4)),
        Sub('runs', chain_case, chain_body, quick=60, thorough=1200, shards=(2, 8))]
