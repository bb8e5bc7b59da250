"""P26: operations of one session do not influence each other."""
import importlib
import io
import contextlib
import gc
import os
import pickle
import re
import shutil
import signal
import traceback
import numpy as np
from hypothesis import strategies as st
from vlib import qharef as Q, elastic as el
from vlib.core import Sub, check, fail
from props import p04, p15, p19, p21, p22, p23, p24, p25

RULE = ('Generated: sessions of 2-8 operations over shared files: reading elastic, equation-of-state, phonon and result files, harmonic, '
        'quasi-harmonic, elastic and equation-of-state calculations, seismic analyses, input generation from every ab initio program, exports '
        'and commands, valid and damaged ones, with new objects or the ones used before. Oracle: every operation alone in a freshly forked '
        'process that has only imported the package (same inputs, same output folder), and the objects and arrays obtained earlier looked at '
        'again when the session ends. Non-trivial: at least two operations of the same kind on different inputs, or a failed operation '
        'before a successful one. Input files are edited in place (same length) between some operations.')
ASSUMPTIONS = ['results agree when their numbers agree to 1e-9 (1e-5 for iterative equation-of-state fits), so that the summation order of '
               'the numerical libraries does not matter',
               'times reported by the calculations are not compared',
               'an object used again may forget its earlier results, but never change the arrays it gave away']

MODULES = ['quantas.IO.soec_reader', 'quantas.IO.eos_reader', 'quantas.IO.qha_reader', 'quantas.IO.hdf5_reader', 'quantas.IO.soec_writer',
           'quantas.IO.qha_writer', 'quantas.harmonic.harmonic', 'quantas.qha.qha', 'quantas.soec.soec', 'quantas.eosfit.utils.pv_eos',
           'quantas.eosfit.eosfit', 'quantas.seismic.utils.seismic_obj', 'quantas.harmonic.utils.export', 'quantas.qha.utils.export',
           'quantas.soec.utils.export', 'quantas.cmdline.commands.cmd_quantas', 'scipy.odr', 'scipy.linalg']


# --- isolated processes -------------------------------------------------------------------------------------------------------------
def apart(function, *args):
    """function(*args) in a forked copy of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            gc.disable()
            try:
                out = ('ok', function(*args))
            except BaseException as e:
                out = ('error', '{!r} {}'.format(e, traceback.format_exc()[-1200:]))
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    done = False
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        done = True
    finally:
        if not done:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if not data:
        fail('the process running the operations ended without an answer')
    kind, value = pickle.loads(data)
    if kind == 'error':
        fail('{}', value)
    return value


# --- pictures of values -----------------------------------------------------------------------------------------------------------
def picture(x):
    """a comparable, picklable copy"""
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'biufc':
            return ('array', np.array(x, dtype=complex if x.dtype.kind == 'c' else float))
        return ('list', [picture(v) for v in x.tolist()])
    if isinstance(x, dict):
        return ('dict', {str(k): picture(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return ('list', [picture(v) for v in x])
    if isinstance(x, (bool, np.bool_, str, bytes, type(None))):
        return ('plain', x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ('array', np.array(float(x)))
    return ('plain', type(x).__name__)


def differ(a, b, rtol):
    """None, or where two pictures differ"""
    if a[0] != b[0]:
        return '{} and {}'.format(a, b)
    k, x, y = a[0], a[1], b[1]
    if k == 'array':
        if x.shape != y.shape:
            return 'shapes {} and {}'.format(x.shape, y.shape)
        ok = np.isfinite(x) & np.isfinite(y)
        if not np.array_equal(x[~ok], y[~ok], equal_nan=True):
            return '{} and {}'.format(x, y)
        s = np.abs(y[ok]).max() if ok.any() else 0.
        if ok.any() and np.abs(x[ok] - y[ok]).max() > rtol * s:
            i = np.argmax(np.where(ok, np.abs(x - y), 0.))
            return '{!r} instead of {!r}'.format(x.ravel()[i], y.ravel()[i])
        return None
    if k == 'dict':
        if sorted(x) != sorted(y):
            return 'entries {} and {}'.format(sorted(x), sorted(y))
        for n in x:
            d = differ(x[n], y[n], rtol)
            if d:
                return '{}: {}'.format(n, d)
        return None
    if k == 'list':
        if len(x) != len(y):
            return '{} and {} items'.format(len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            d = differ(p, q, rtol)
            if d:
                return 'item {}: {}'.format(i, d)
        return None
    if isinstance(x, str) and isinstance(y, str):
        return texts(x, y, rtol)
    return None if x == y else '{!r} instead of {!r}'.format(x, y)


def texts(x, y, rtol):
    if x == y:
        return None
    p, q = x.split(), y.split()
    for i, (a, b) in enumerate(zip(p, q)):
        if a != b:
            try:
                u, v = float(a), float(b)
            except ValueError:
                return '{!r} instead of {!r}'.format(' '.join(p[max(0, i - 3):i + 4]), ' '.join(q[max(0, i - 3):i + 4]))
            if abs(u - v) > max(rtol, 2e-5) * max(abs(u), abs(v)) + 1e-7:
                return '{} instead of {} after {!r}'.format(a, b, ' '.join(q[max(0, i - 4):i]))
    if len(p) != len(q):
        return '{} words instead of {}: {!r}'.format(len(p), len(q), ' '.join((p if len(p) > len(q) else q)[min(len(p), len(q)):][:12]))
    return None


TIME = re.compile(r'^.*\b(sec|seconds|elapsed|time)\b.*$', re.I | re.M)


def folder(path):
    out = {}
    for n in sorted(os.listdir(path)):
        with open(os.path.join(path, n), 'rb') as f:
            b = f.read()
        if n.endswith('.hdf5'):
            import h5py
            with h5py.File(os.path.join(path, n), 'r') as h:
                out[n] = {'info': str(h.attrs['info']), 'data': {k: h[k][()] for k in h}, 'units': {k: str(h[k].attrs['unit']) for k in h}}
        else:
            out[n] = TIME.sub('', b.decode('utf8', 'replace'))
    return out


# --- operations -------------------------------------------------------------------------------------------------------------------
# each: f(op, paths, out, objects) -> (result, arrays/objects to look at again: callable or None)
def obj(objects, op, key, make):
    if op['reuse'] and key in objects:
        return objects[key]
    o = make()
    objects[key] = o
    return o


def soec_read(op, files, out, objects):
    from quantas.IO.soec_reader import SOECInputFileReader
    r = SOECInputFileReader(files['soec'])

    def look():
        return {'completed': r.completed, 'error': r.error, 'job': r.jobname, 'C': r.stiffness, 'rho': r.density}
    return look(), look


def eos_read(op, files, out, objects):
    from quantas.IO.eos_reader import EoSInputFileReader
    r = EoSInputFileReader(files['eos'])

    def look():
        return {'completed': r.completed, 'error': r.error, 'job': r.jobname, 'data': r.data}
    return look(), look


def qha_read(op, files, out, objects):
    from quantas.IO.qha_reader import QHAInputFileReader
    if op['reuse'] and 'qha_read' in objects:       # the same reader, loading another file
        r = objects['qha_read']
        r.load(files['ha'])
    else:
        r = objects['qha_read'] = QHAInputFileReader(files['ha'])
    held = {'completed': r.completed, 'error': r.error, 'data': r.data}
    if r.completed:
        held.update(job=r.jobname, v=r.volume, e=r.energy, f=r.frequencies, w=r.weights, n=r.natoms, q=r.qpoints)
    return held, lambda: held


def calculation(calc, err, out, keep):
    """picture of one run, and a way to look at the arrays again"""
    if err is not None or not calc.completed:
        return {'error': err if err is not None else calc.error}, None
    calc.export_hdf5(os.path.join(out, 'r.hdf5'))
    held = {k: v for k, v in calc.results.items() if isinstance(v, np.ndarray)}
    held.update(keep())
    return dict(held, files=folder(out)), lambda: held


def ha_run(op, files, out, objects):
    from quantas.harmonic.harmonic import HACalculator
    c = files['ha_case']
    T = (10., 10. + 15. * op['n'], 15.) if c['tunit'] == 'K' else (-200., -200. + 15. * op['n'], 15.)
    key = ('ha', T, c['eunit'], c['lunit'], c['funit'], c['tunit'])
    calc = obj(objects, op, key, lambda: HACalculator(p04.settings(T, energy_unit=c['eunit'], lenght_unit=c['lunit'], frequency_unit=c['funit'],
                                                                   temperature_unit=c['tunit'])))
    calc.log = os.path.join(out, 'log')
    err = calc.read_input(files['ha'])
    if err is None:
        calc.report_input_data()
        calc.run()
    calc.log = None
    return calculation(calc, err, out, lambda: {'T': calc.temperature})


def qha_run(op, files, out, objects):
    from quantas.qha.qha import QHACalculator
    k = op['n']
    s = Q.settings((10., 10. + 140. * (k % 3), 140.), (0., 1. * (k % 2), 1.), qha_scheme=['freq', 'td'][k % 2],
                   minimization=['poly', 'eos'][k // 2 % 2], eos_function=Q.EOS[k % 4], kieffer=k == 5)
    calc = obj(objects, op, ('qha', k), lambda: QHACalculator(s))
    calc.log = os.path.join(out, 'log')
    err = calc.read_input(files['qha'])
    if err is None:
        calc.report_input_data()
        calc.run()
        if calc.completed:
            calc.report_results()
    calc.log = None
    return calculation(calc, err, out, lambda: {'T': calc.temperature, 'P': calc.pressure})


def soec_calc(op, files, out, objects):
    from quantas.soec.soec import SOECCalculator
    calc = obj(objects, op, ('soec',), lambda: SOECCalculator({'polar': False, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit':
                                                               'GPa', 'plotting': False, 'outfig': None, 'dpi': 80}))
    calc.log = os.path.join(out, 'log')
    err = calc.read_input(files['soec'])
    if err is not None:
        return {'error': err}, None
    if op['full']:
        calc.run()
        calc.log = None
        return calculation(calc, None, out, lambda: {'C': calc.soec.stiffness})
    calc.report_input_data()
    calc.log = None
    s, system = calc.soec, calc._system
    ang = (0.3 + 0.2 * op['n'], 1.1, 2.3)

    def look():
        return {'C': s.stiffness, 'S': s.compliance, 'avg': s.averages(), 'E': s.young_modulus(ang[:2]), 'G': s.shear_modulus(ang),
                'Nu': s.poisson_ratio(ang),
                'system': system}
    first = look()
    held = {'C': s.stiffness, 'S': s.compliance}
    return dict(first, files=folder(out), held=held), lambda: dict(look(), files=folder(out), held=held)


def polar(op, files, out, objects):
    """elastic properties on planes"""
    from quantas.soec.soec import SOECCalculator
    calc = obj(objects, op, ('polar',), lambda: SOECCalculator({'polar': True, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit':
                                                               'GPa', 'plotting': False, 'outfig': None, 'dpi': 80}))
    err = calc.read_input(files['soec'])
    if err is not None:
        return {'error': err}, None
    calc.calculate_polar_properties(nrad=2 + op['n'] % 2)
    held = calc.results['polar']
    return {'polar': held}, lambda: {'polar': held}


def helpers(op, files, out, objects):
    """small functions at the edge of their domain"""
    from quantas.utils.math import polynomials as po, fast_math as fm, derivative as de
    from quantas.utils.physics import statistical_mechanics as sm, thermodynamics as td
    from quantas.qha.utils.ev_eos import EnergyEOS
    from quantas.eosfit.utils.pv_eos import BirchMurnaghan, Vinet
    x = np.linspace(1., 2., 4 + op['n'])
    todo = {'r2': lambda: po.R_squared(x, np.ones_like(x) * 3., np.array([3., 0.])),
           'mr2': lambda: np.asarray(fm.multi_R2(x, np.ones((2, x.size)), np.ones((2, 2)))),
           'K': lambda: np.asarray(td.adiabatic_bulk_modulus(np.array([0., 300.]), np.ones((2, 2)) * 1e-28, np.ones((2, 2)) * 100., np.ones((2, 2)) * 1e-5,
                                                     np.array([[0., 0.], [0., 20.]]), 1e9)),
           'g': lambda: np.asarray(td.gruneisen_parameter(np.ones((2, 2)) * 1e-28, np.ones((2, 2)) * 1e11, np.ones((2, 2)) * 1e-5,
                                                  np.array([[0., 10.], [0., 20.]]))),
           'F': lambda: np.asarray(sm.vibrational_free_energy(np.array([0., 1e-300, 300.]), np.array([[[0., -1e12, 1e13]]]), np.ones(1))),
           'E': lambda: EnergyEOS().birchmurnaghan(np.array([0., 50., 100.]), -1., 1., 4., 100.),
           'P': lambda: BirchMurnaghan().eos([100., 4., -0.03, 100.], np.array([0., 50., 100.]), order=3),
           'N': lambda: BirchMurnaghan().normalize([100., 4., -0.03, 100.], np.array([100., 100., 98.]), np.array([0., 0., 2.]), order=3)[:4],
           'W': lambda: Vinet().normalize([100., 4., -0.03, 100.], np.array([100., 100., 98.]), np.array([0., 0., 2.]), order=3)[:4],
           'd': lambda: np.asarray(de.derivative(np.array([1., 1., 2., 3., 4.]), np.arange(5.)))}
    held = {}
    for k, f in todo.items():
        try:
            held[k] = f()
        except ArithmeticError as e:
            held[k] = type(e).__name__
    return held, lambda: held


def eos_fit(op, files, out, objects):
    from props.p10 import CLASSES
    from quantas.IO.eos_reader import EoSInputFileReader
    name = sorted(CLASSES)[op['n'] % len(CLASSES)]
    r = EoSInputFileReader(files['pv'])
    if not r.completed:
        return {'error': r.error}, None
    eos = obj(objects, op, ('eos', name), CLASSES[name][0])
    order = CLASSES[name][1][op['n'] % 2 % len(CLASSES[name][1])]
    lin = op['n'] % 3 == 2
    q = r.data['a'] if lin else r.volume
    res = eos.fit(q, r.pressure, order=order, linear=lin)
    held = {'beta': res.beta, 'y': res.y, 'input': [q, r.pressure]}
    return held, lambda: held


def seismic(op, files, out, objects):
    from quantas.IO.soec_reader import SOECInputFileReader
    from quantas.seismic.utils import seismic_obj
    r = SOECInputFileReader(files['soec'])
    if not r.completed:
        return {'error': r.error}, None
    cls = [v for k, v in vars(seismic_obj).items() if isinstance(v, type) and hasattr(v, 'spherical_direction')][0]
    w = cls(r.stiffness, r.density if r.density > 0 else 3000.)
    w.spherical_direction(0.4 + 0.3 * op['n'], 1. + 0.2 * op['n'])

    def look():
        return {k: getattr(w, k) for k in ('q', 'phase_velocity', 'group_velocity', 'eigenval', 'powerflow_angle')}
    return look(), look


def gen_ha(op, files, out, objects):
    from quantas.IO.qha_writer import QHAInputCreator
    r = files['phonons']
    flag = p22.FLAG[r['source']]
    g = obj(objects, op, ('gen', flag), lambda: QHAInputCreator(flag))
    try:
        ok, err = g.read(files['phonon'][0], files['phonon'][1], 0)
    except OSError as e:
        return {'error': type(e).__name__}, None
    if not ok:
        return {'error': err}, None
    with p22.answering(r['title']):
        g.write(os.path.join(out, 'new.yaml'), 0)
    return folder(out), lambda: folder(out)


def gen_soec(op, files, out, objects):
    from quantas.IO.soec_writer import SOECInputCreator
    prog = files['elastic_program']
    g = obj(objects, op, ('gsoec', prog), lambda: SOECInputCreator(prog))
    ok, err = g.read(files['elastic'])
    if not ok:
        return {'error': err}, None
    g.write(os.path.join(out, 'new.dat'), 'title %d' % op['n'])
    d = g.soec_data
    return {'files': folder(out), 'C': d.stiffness, 'rho': d.density}, lambda: {'files': folder(out), 'C': d.stiffness, 'rho': d.density}


def export(op, files, out, objects):
    from quantas.harmonic.utils.export import QuantasHarmonicExport
    from quantas.qha.utils.export import QuantasQHAExport
    from quantas.soec.utils.export import QuantasSOECExport
    kind = files['result_kind']
    shutil.copy(files['result'], os.path.join(out, 'x.hdf5'))
    ex = obj(objects, op, ('export', kind), {'ha': QuantasHarmonicExport, 'qha': QuantasQHAExport, 'soec': QuantasSOECExport}[kind])
    ex.load(os.path.join(out, 'x.hdf5'))
    if ex.error is not None:
        return {'error': ex.error}, None
    keys = sorted(ex.keys)
    k = keys[op['n'] % len(keys)]
    held = {n: d['values'] for n, d in ex.data.items()}
    p24.run_object(ex, os.path.join(out, 'x.hdf5'), [k, 'n'])
    os.remove(os.path.join(out, 'x.hdf5'))
    return {'keys': keys, 'files': folder(out), 'data': held}, lambda: {'keys': keys, 'files': folder(out), 'data': held}


def h5read(op, files, out, objects):
    from quantas.IO.hdf5_reader import QuantasHDF5Reader
    r = QuantasHDF5Reader(files['result'])
    try:
        r.read()
    except (OSError, KeyError) as e:        # a damaged file
        return {'error': type(e).__name__}, None

    def look():
        return {'info': r.info, 'data': {k: r.get_data(k) for k in ('T', 'P', 'V', 'F', 'Cv', 'stiffness', 'none')}}
    return look(), look


def command(op, files, out, objects):
    """a command line"""
    from click.testing import CliRunner
    from quantas.cmdline.commands.cmd_quantas import cli
    k, base = op['n'] % 6, os.path.join(out, 'o')
    c = files['ha_case']
    args = [['ha', files['ha'], '-T', '10', '40', '15', '--eunit', c['eunit'], '-o', base],
            ['qha', files['qha'], '-T', '10', '310', '150', '--eos', 'BM', '-m', ['poly', 'eos'][op['n'] // 2 % 2], '-o', base],
            ['inpgen', 'soec', files['elastic'], '-i', files['elastic_program'], '-o', base],
            ['inpgen', 'ha', files['phonon'][0], '-i', p22.FLAG[files['phonons']['source']], '-o', base] + (['-l'] if files['phonon'][1] else []),
            ['export', 'ha', files['result']], ['eosfit', files['pv'], '-o', base]][k]
    answers = ['', '', 'name\n', 'name\n', None, 'v\n%d\n2\nn\nn\nn\nn\nn\n' % (op['n'] % 5 + 1)][k]
    if k == 4:
        kind = files['result_kind']
        path = os.path.join(out, 'x.hdf5')
        shutil.copy(files['result'], path)
        args = ['export', kind, path]
        answers = '%s\nn\n' % {'ha': 'F', 'qha': 'F', 'soec': 'E'}[kind]
    r = CliRunner().invoke(cli, args, input=answers)
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        return {'stopped': repr(r.exception)}, None
    if k == 4:
        os.remove(path)
    shown = TIME.sub('', r.output)
    return {'shown': shown, 'status': r.exit_code, 'files': folder(out)}, lambda: {'shown': shown, 'status': r.exit_code, 'files': folder(out)}


OPS = {f.__name__: f for f in (soec_read, eos_read, qha_read, ha_run, qha_run, soec_calc, polar, helpers, eos_fit, seismic, gen_ha, gen_soec, export, h5read,
                               command)}
LOOSE = {'eos_fit': 1e-5, 'command': 1e-5, 'qha_run': 1e-6}


# --- sessions -----------------------------------------------------------------------------------------------------------------------
@st.composite
def inputs(draw):
    """one set of input files"""
    soec = draw(el.tensors(spread=0.8, neg=True))
    soec['rho'] = draw(st.sampled_from([0., 3000., 5000.]))
    ha = draw(p23.ha_case())
    ph = draw(p22.run())
    ph['natom'] = min(ph['natom'], 2)
    return {'soec': soec, 'eos': draw(p19.filecase()), 'ha': ha, 'qha': draw(Q.crystal(max_nq=2, nv=(6, 7))), 'phonons': ph,
            'elastic': draw(p21.output()), 'result': draw(p24.content()), 'title': draw(st.sampled_from(p23.TITLES)),
            'pv': [draw(st.floats(60., 300.)), draw(st.floats(50., 250.)), draw(st.floats(3.5, 5.)), draw(st.integers(8, 12))],
            'notitle': draw(st.booleans()),
            'broken': draw(st.lists(st.sampled_from(['soec', 'eos', 'ha', 'qha', 'pv', 'phonon', 'elastic', 'result', 'absent']), unique=True, max_size=3))}


@st.composite
def session(draw):
    sets = [draw(inputs()) for _ in range(2)]
    favourite = draw(st.sampled_from(sorted(OPS) + ['any'] * 4))
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        name = favourite if favourite != 'any' and draw(st.integers(0, 2)) else draw(st.sampled_from(sorted(OPS)))
        ops.append({'op': name, 'set': draw(st.integers(0, 1)), 'n': draw(st.integers(0, 5)), 'reuse': draw(st.booleans()), 'full': False, 'rel': draw(st.booleans()), 'edit': draw(st.sampled_from([False] * 4 + [True]))})
    return {'sets': sets, 'ops': ops}


@st.composite
def analyses(draw):
    c = draw(session())
    c['ops'] = [{'op': 'soec_calc', 'set': i, 'n': 0, 'reuse': draw(st.booleans()), 'full': True} for i in (0, 1)]
    for s in c['sets']:
        s['broken'] = []
    return c


DIGIT = re.compile(rb'(?<=\.\d\d)\d(?=\d)')


def edit(folder):
    """changes the numbers in the files of a set in place, keeping their lengths"""
    import h5py
    for d, _, names in os.walk(folder):
        for n in names:
            path = os.path.join(d, n)
            if n.endswith('.hdf5'):
                try:
                    with h5py.File(path, 'r+') as f:
                        for k in f:
                            if f[k].dtype.kind == 'f':
                                f[k][...] = f[k][...] * 1.015625
                except (OSError, KeyError, AttributeError):
                    pass
            else:
                with open(path, 'rb') as f:
                    b = f.read()
                with open(path, 'wb') as f:
                    f.write(DIGIT.sub(lambda m: b'%d' % ((int(m.group()) + 1) % 10), b))


def put_back(folder, content):
    for n, b in content.items():
        with open(os.path.join(folder, n), 'wb') as f:
            f.write(b)


def prepare(s, where):
    """writes one set of inputs; returns the paths"""
    os.makedirs(where)
    f = {k: os.path.join(where, n) for k, n in (('soec', 's.dat'), ('eos', 'e.dat'), ('ha', 'h.yaml'), ('qha', 'q.yaml'), ('pv', 'pv.dat'),
                                                ('elastic', 'run.out'), ('result', 'r.hdf5'))}
    C = el.make(s['soec'])
    text = el.soec_text(C, rho=s['soec']['rho'] or None)
    with open(f['soec'], 'w') as g:
        if s['notitle']:
            text = '\n'.join(text.split('\n')[1:]) if not re.match(r'^\s*[-+]?\d', text) else text
        g.write(text)
    rows = p19.numbers(s['eos'])
    head, body = p19.lines_of(s['eos'], rows)
    p19.write(s['eos'], f['eos'], head + body)
    p04.write_case(s['ha'], f['ha'])
    p23.retitle(f['ha'], s['title'])
    f['ha_case'] = s['ha']
    Q.write(s['qha'], f['qha'])
    v0, k0, kp, n = s['pv']
    x = np.linspace(0.9, 1., n)
    e = x ** (-1. / 3.)
    P = 1.5 * k0 * (e ** 7 - e ** 5) * (1. + 0.75 * (kp - 4.) * (e ** 2 - 1.))
    with open(f['pv'], 'w') as g:
        sig = s['notitle']
        g.write('JOB\nfit\nFORMAT\nP V a{}\nDATA\n'.format(' sigmaP' if sig else ''))
        for a, b in zip(P, v0 * x):
            g.write('%.8f %.8f %.8f%s\n' % (a, b, b ** (1. / 3.), ' 0.01' if sig else ''))
    p21.put(f['elastic'], p21.lines_of(s['elastic'])[0])
    f['elastic_program'] = s['elastic']['program']
    sub = os.path.join(where, 'ph')
    os.makedirs(sub)
    main, _ = p22.write_run(s['phonons'], sub)
    f['phonon'] = p22.target(s['phonons'], main, sub)
    f['phonons'] = s['phonons']
    p24.put(s['result'], f['result'])
    f['result_kind'] = s['result']['kind']
    for k in s['broken']:
        if k == 'absent':
            f['phonon'] = os.path.join(sub, 'absent.txt'), True
            with open(f['phonon'][0], 'w') as g:
                g.write('one.out\ntwo.out\n')
            continue
        path = main[-1] if k == 'phonon' else f[k]
        with open(path, 'rb') as g:
            b = g.read()
        with open(path, 'wb') as g:
            g.write(b[:len(b) * 3 // 5])
    return f


def one(op, files, out, objects, root):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if op.get('rel'):
        files = {k: os.path.relpath(v, root) if isinstance(v, str) and os.sep in v else v for k, v in files.items()}
        files['phonon'] = (os.path.relpath(files['phonon'][0], root), files['phonon'][1])
        out = os.path.relpath(out, root)
    with contextlib.redirect_stdout(io.StringIO()):
        return OPS[op['op']](op, files, out, objects)


def alone(op, files, out, root):
    os.chdir(root)
    return picture(one(op, files, out, {}, root)[0])


def together(ops, sets, outs, root):
    os.chdir(root)
    objects, shown, looks = {}, [], []
    for op, out in zip(ops, outs):
        if op.get('edit'):
            edit(os.path.dirname(sets[op['set']]['soec']))
        result, look = one(op, sets[op['set']], out, objects, root)
        shown.append(picture(result))
        looks.append(look)
    for i, op in enumerate(ops):        # this reader takes its data from the file when asked
        if op['op'] == 'h5read' and any(o.get('edit') and o['set'] == op['set'] for o in ops[i + 1:]):
            looks[i] = None
    with contextlib.redirect_stdout(io.StringIO()):
        return shown, [None if l is None else picture(l()) for l in looks]


def body(c, ctx):
    for m in MODULES:
        importlib.import_module(m)
    sets = [prepare(s, os.path.join(ctx.scratch, 'in%d' % i)) for i, s in enumerate(c['sets'])]
    before = p25.tree(ctx.scratch)
    outs = [os.path.join(ctx.scratch, 'out%d' % i) for i in range(len(c['ops']))]
    want = []
    for op, out in zip(c['ops'], outs):
        if op.get('edit'):
            edit(os.path.dirname(sets[op['set']]['soec']))
        held = p25.tree(ctx.scratch)
        want.append(apart(alone, op, sets[op['set']], out, ctx.scratch))
        shutil.rmtree(out, ignore_errors=True)
        check(p25.tree(ctx.scratch) == held, 'the inputs were changed by {}', op['op'])
    put_back(ctx.scratch, before)
    got, again = apart(together, c['ops'], sets, outs, ctx.scratch)
    final = p25.tree(ctx.scratch)
    check(sorted(n for n in final if n.startswith('in')) == sorted(before), 'input files were created or removed by the session')
    for n, b in held.items():
        if n.endswith('.hdf5'):
            continue        # rewritten by the library
        check(final[n] == b, 'the input {} was changed by the session', n)
    for op in c['ops']:
        if op.get('edit'):
            ctx.note('input edited')
            break
    failed = []
    for i, op in enumerate(c['ops']):
        tol = LOOSE.get(op['op'], 1e-9)
        d = differ(got[i], want[i], tol)
        names = [o['op'] for o in c['ops'][:i]]
        check(d is None, '{} after {} gives another result than alone: {}', op['op'], names, d)
        w = want[i][1]
        failed.append('error' in w and w['error'] != ('plain', None))
        if again[i] is not None:
            for k, v in again[i][1].items():
                d = differ(v, got[i][1][k], 0.)
                check(d is None, '{} obtained from {} changed during the operations {} that followed: {}', k, op['op'],
                      [o['op'] for o in c['ops'][i + 1:]], d)
        ctx.note(op['op'] + (' failing' if failed[-1] else ''))
    kinds = {}
    for o in c['ops']:
        kinds.setdefault(o['op'], set()).add(o['set'])
    ctx.interesting(any(len(v) > 1 for v in kinds.values()) or any(a and not b for a, b in zip(failed, failed[1:])))


SUBS = [Sub('sessions', session, body, quick=45, thorough=1500, shards=(8, 8), hang=120),
        Sub('analyses', analyses, body, quick=2, thorough=16, shards=(2, 8), hang=400)]
