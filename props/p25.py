"""P25: the command line."""
import contextlib
import io
import os
import re
import numpy as np
import h5py
from click.testing import CliRunner
from hypothesis import strategies as st
from vlib import phin, qharef as Q, elastic as el
from vlib.core import Sub, check, close, fail
from props import p04, p23, p24

RULE = ('Generated: ha, qha, soec, eosfit, export and inpgen command lines with every option present or left out in any order and spelling, input '
        'names with and without dots, outputs in other folders, outputs that exist already and all answers to the question about them (and '
        'none), quiet runs, invalid invocations of every command and garbled copies of valid inputs. Oracle: the run of the calculator with the settings stated on the command '
        'line (own table of the documented defaults and codes), the listing and bytes of the folder before and after, an answer-by-answer '
        'model of the overwrite dialogue. Non-trivial: at least two options differ from their defaults, or a file existed before.')
ASSUMPTIONS = ['the log of a run and generated inputs are rewritten without asking; only result files and exported tables are protected',
               'progress messages and warnings of a quiet run are not results',
               'garbled elastic inputs are read but not analysed']

OLD = b'an older file\n'
NUMBER = re.compile(r'(?<!\S)[-+]?\d+\.\d+(?:[eE][-+]?\d+)?(?!\S)')


def invoke(args, answers=''):
    from quantas.cmdline.commands.cmd_quantas import cli
    r = CliRunner().invoke(cli, args, input=answers)
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        fail('{} stopped with {!r}: {}', ' '.join(os.path.basename(a) for a in args), r.exception, r.output[-300:])
    return r


def tree(folder):
    out = {}
    for d, _, names in os.walk(folder):
        for n in names:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, folder)] = f.read()
    return out


def fill(scratch, names):
    for n in names:
        p = os.path.join(scratch, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(OLD + n.encode())


def unchanged(before, after, allowed, what):
    for n in before:
        check(n in after, '{}: {} has disappeared', what, n)
        if n not in allowed:
            check(after[n] == before[n], '{}: {} has changed', what, n)
    extra = sorted(set(after) - set(before) - set(allowed))
    check(not extra, '{}: unexpected files {}', what, extra)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def rows(text):
    """lines holding results: three numbers or more"""
    return [l.strip() for l in text.splitlines() if len(NUMBER.findall(l)) >= 3]


def told(text):
    """lines holding numbers, but for times and names of files"""
    return [l.strip() for l in text.splitlines() if NUMBER.search(l) and not re.search(r'time|sec\b|file|export|hdf5|png|%', l)]


# --- calculations ---------------------------------------------------------------------------------------------------------------
INNAMES = ['MgO.yaml', 'MgO.v1.yaml', 'input', 'in put.yml', 'MgO_HA.txt.yaml']
OUTS = [None, None, 'out', 'res.v2', 'sub/res', 'sub.dir/res', './out', 'MgO']
ANSWERS = ['y\n', 'n\n', '\n', 'perhaps\ny\n', 'perhaps\nn\n', 'yes\n', 'N\n', '']
SPELL = {'-T': '--temperature', '-P': '--pressure', '-o': '--outfile', '-q': '--quiet', '-s': '--scheme', '-m': '--minimization',
         '-a': '--acoustic', '-d': '--debug', '-p': '--plot', '-i': '--interface', '-r': '--ref', '-l': '--list'}


@st.composite
def frame(draw):
    """everything a command line has beside the settings"""
    return {'name': draw(st.sampled_from(INNAMES)), 'out': draw(st.sampled_from(OUTS)), 'exists': draw(st.booleans()),
            'answer': draw(st.sampled_from(ANSWERS)), 'quiet': draw(st.booleans()), 'long': draw(st.booleans()),
            'first': draw(st.booleans()), 'order': draw(st.integers(0, 10 ** 6)), 'log': draw(st.booleans()), 'debug': draw(st.booleans()),
            'relative': draw(st.booleans())}


def words(c, opts, path, out):
    """the command-line words for a list of (option, values)"""
    opts = list(opts)
    if out is not None:
        opts.append(('-o', [out]))
    if c['quiet']:
        opts.append(('-q', []))
    if c['debug']:
        opts.append(('-d', []))
    opts = [opts[i] for i in np.random.RandomState(c['order']).permutation(len(opts))]
    parts = [[SPELL.get(k, k) if c['long'] else k] + [v if isinstance(v, str) else repr(v) for v in vals] for k, vals in opts]
    flat = sum(parts, [])
    return [path] + flat if c['first'] else flat + [path]


def outputs(c, suffix):
    base = os.path.normpath(c['out']) if c['out'] is not None else os.path.splitext(c['name'])[0] + suffix
    return base + '.hdf5', base + '.txt'


class inside(object):
    def __init__(self, folder):
        self.folder = folder

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.folder)

    def __exit__(self, *a):
        os.chdir(self.old)


def command(c, ctx, cmd, opts, suffix, direct, figures=()):
    """Runs the command and the calculator; direct(path, log) -> (calculator, error)."""
    scratch = ctx.scratch
    h5, log = outputs(c, suffix)
    for n in (h5, log):
        os.makedirs(os.path.dirname(os.path.join(scratch, n)) or scratch, exist_ok=True)
    neighbours = [h5 + '.bak', 'notes.txt', h5[:-5] + '.dat']
    fill(scratch, neighbours + ([h5] if c['exists'] else []) + ([log] if c['log'] else []))
    ref = os.path.join(os.path.dirname(scratch), 'direct-' + os.path.basename(scratch))
    os.makedirs(ref, exist_ok=True)
    try:
        with quiet():
            calc, err = direct(os.path.join(scratch, c['name']), os.path.join(ref, 'log'))
            if err is None:
                calc.export_hdf5(os.path.join(ref, 'r.hdf5'))
        with open(os.path.join(ref, 'log'), encoding='utf8') as f:
            dlog = f.read()
        before = tree(scratch)
        if c['relative']:
            with inside(scratch):
                r = invoke([cmd] + words(c, opts, c['name'], c['out']), c['answer'])
        else:
            r = invoke([cmd] + words(c, opts, os.path.join(scratch, c['name']), None if c['out'] is None else os.path.join(scratch, c['out'])),
                       c['answer'])
        after = tree(scratch)
        what = cmd
        asked = 'overwrite' in r.output.lower() and '[y/n]' in r.output.lower()
        check(log in after, '{}: no log {} among {}', what, log, sorted(after))
        text = after[log].decode('utf8')
        check(OLD.decode() not in text, '{}: the log still holds an older text', what)
        if err is not None:
            unchanged(before, after, [log], what)
            check(str(err).strip().split('\n')[0] in r.output, '{}: the error {!r} is not shown: {}', what, err, r.output[-300:])
            check(not asked, '{}: asks about an output that will not be written', what)
            return None, None
        saved = True
        if c['exists']:
            check(asked, '{}: the existing {} is overwritten without asking', what, h5)
            a = c['answer'].strip().split('\n')[-1].lower()
            saved = a in ('y', 'yes')
            check((r.exit_code == 0) == (c['answer'] != ''), '{}: exit status {} after the answer {!r}', what, r.exit_code, c['answer'])
        else:
            check(not asked, '{}: asks about {}, which does not exist', what, h5)
            check(r.exit_code == 0, '{}: exit status {}: {}', what, r.exit_code, r.output[-300:])
        pictures = ['{}_{}.png'.format(h5[:-5], k) for k in figures]
        for n in pictures:
            check(n in after and after[n][:8] == b'\x89PNG\r\n\x1a\n', '{}: no figure {} among {}', what, n, sorted(after))
        unchanged(before, after, [log] + ([h5] if saved else []) + pictures, what)
        if saved:
            check(h5 in after, '{}: no results in {}: {}', what, h5, sorted(after))
            compare(os.path.join(scratch, h5), os.path.join(ref, 'r.hdf5'))
        elif c['answer']:
            check('not saved' in text, '{}: the log does not say that results were not saved', what)
        # what is shown
        want = told(dlog)
        have = text.splitlines()
        lines = [l.strip() for l in have]
        pos = 0
        for l in want:
            check(l in lines[pos:], '{}: the log lacks the line {!r} of the calculation', what, l)
            pos += lines[pos:].index(l) + 1
        shown = [l.strip() for l in r.output.splitlines()]
        if c['quiet']:
            for l in rows(dlog):
                check(l not in shown, '{}: a quiet run shows {!r}', what, l)
        else:
            pos = 0
            for l in want:
                check(l in shown[pos:], '{}: the screen lacks the line {!r}', what, l)
                pos += shown[pos:].index(l) + 1
        return after[h5] if saved else None, text
    finally:
        for n in os.listdir(ref):
            os.remove(os.path.join(ref, n))
        os.rmdir(ref)


def compare(got, want):
    with h5py.File(got, 'r') as a, h5py.File(want, 'r') as b:
        check(sorted(a) == sorted(b), 'the results hold {} instead of {}', sorted(a), sorted(b))
        for k in b:
            x, y = a[k][()], b[k][()]
            check(x.shape == y.shape, '{} has shape {} instead of {}', k, x.shape, y.shape)
            close(x, y, rtol=1e-12, scale=np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else None, what=k)
            check(a[k].attrs['unit'] == b[k].attrs['unit'], 'unit of {}: {!r} instead of {!r}', k, a[k].attrs['unit'], b[k].attrs['unit'])
        check(a.attrs['info'] == b.attrs['info'], 'description of the results:\n{}\ninstead of\n{}', a.attrs['info'], b.attrs['info'])


FCODE = {'cm^-1': 'cm-1', 'THz': 'THz', 'Hz': 'Hz'}
ECODE = {'murnaghan': 'M', 'birchmurnaghan': 'BM', 'pouriertarantola': 'PT', 'vinet': 'V'}


def thin(c, drop):
    """replaces the settings named in drop by their documented defaults"""
    for k in drop:
        c[k] = {'eunit': 'Ha', 'lunit': 'A', 'funit': 'cm^-1', 'tunit': 'K', 'punit': 'GPa', 'scheme': 'td', 'min': 'poly', 'eos': 'birchmurnaghan',
                'edeg': 3, 'fdeg': 3, 'kieffer': False, 'Trange': [298.15, 298.15, 1.], 'Prange': [0., 0., 1.]}[k]


@st.composite
def ha_case(draw):
    c = draw(p23.ha_case())
    c.update(draw(frame()))
    t = c.pop('T')
    c['drop'] = draw(st.lists(st.sampled_from(['eunit', 'lunit', 'funit', 'tunit', 'Trange']), unique=True, max_size=4))
    thin(c, c['drop'])
    if 'Trange' not in c['drop']:
        t0 = t['t0'] - (273.15 if c['tunit'] == 'C' else 0.)
        c['Trange'] = [t0, t0 + t['dt'] * (t['n'] - 1 + t['rest']), t['dt']]
    return c


def options(c, names):
    out = []
    for k, o in names:
        if k not in c['drop']:
            v = c[k]
            out.append((o, v if isinstance(v, list) else [{'funit': FCODE, 'eos': ECODE}.get(k, {}).get(v, v)]))
    return out


def ha_body(c, ctx):
    from quantas.harmonic.harmonic import HACalculator
    path = os.path.join(ctx.scratch, c['name'])
    p04.write_case(c, path)
    p23.retitle(path, c['title'])

    def direct(path, log):
        calc = HACalculator(p04.settings(tuple(c['Trange']), energy_unit=c['eunit'], lenght_unit=c['lunit'], frequency_unit=c['funit'],
                                         temperature_unit=c['tunit'], logfile=log))
        err = calc.read_input(path)
        check(err is None, 'valid input refused: {}', err)
        calc.report_input_data()
        calc.run()
        check(calc.completed, 'run not completed: {}', calc.error)
        return calc, None
    opts = options(c, [('eunit', '--eunit'), ('lunit', '--vunit'), ('funit', '--funit'), ('tunit', '--tunit'), ('Trange', '-T')])
    command(c, ctx, 'ha', opts, '_HA', direct)
    for k in c['drop']:
        ctx.note('default ' + k)
    ctx.interesting(len(opts) > 1 or c['exists'])


@st.composite
def qha_case(draw):
    c = draw(Q.crystal(max_nq=2, nv=(6, 8)))
    c.update(draw(frame()))
    c.update(scheme=draw(st.sampled_from(['freq', 'td'])), eunit=draw(st.sampled_from(['Ha', 'eV', 'Ry'])),
             lunit=draw(st.sampled_from(['A', 'bohr'])), funit=draw(st.sampled_from(['cm^-1', 'THz', 'Hz'])),
             tunit=draw(st.sampled_from(['K', 'C'])), punit=draw(st.sampled_from(['GPa', 'kbar'])), title=draw(st.sampled_from(p23.TITLES)),
             min=draw(st.sampled_from(['poly', 'eos'])), eos=draw(st.sampled_from(Q.EOS)), edeg=draw(st.integers(2, 5)),
             fdeg=draw(st.integers(2, 5)), kieffer=draw(st.sampled_from([False, False, True])))
    c['drop'] = draw(st.lists(st.sampled_from(['eunit', 'lunit', 'funit', 'tunit', 'punit', 'scheme', 'min', 'eos', 'edeg', 'fdeg', 'kieffer',
                                               'Trange', 'Prange']), unique=True, max_size=9))
    thin(c, c['drop'])
    if 'Trange' not in c['drop']:
        t0 = draw(st.sampled_from([0., 5., 20., 300.])) - (273.15 if c['tunit'] == 'C' else 0.)
        nt = draw(st.integers(1, 3))
        c['Trange'] = [t0, t0 + 12.5 * (nt - 1), 12.5]
    if 'Prange' not in c['drop']:
        dp = draw(st.sampled_from([0.5, 2.]))
        c['Prange'] = [draw(st.sampled_from([0., 0., 1.])), 0., dp]
        c['Prange'][1] = c['Prange'][0] + dp * draw(st.integers(0, 2))
    c['upper'] = draw(st.booleans())
    return c


def qha_body(c, ctx):
    path = os.path.join(ctx.scratch, c['name'])
    Q.write(c, path, c['eunit'], c['lunit'], c['funit'])
    p23.retitle(path, c['title'])

    def direct(path, log):
        s = Q.settings(tuple(c['Trange']), tuple(c['Prange']), qha_scheme=c['scheme'], minimization=c['min'], eos_function=c['eos'],
                       energy_unit=c['eunit'], lenght_unit=c['lunit'], frequency_unit=c['funit'], temperature_unit=c['tunit'],
                       pressure_unit=c['punit'], edeg=c['edeg'], fdeg=c['fdeg'], kieffer=c['kieffer'], logfile=log, eos=ECODE[c['eos']])
        calc, err = Q.run(path, s)
        if err is None:
            calc.report_results()
        return calc, err
    opts = options(c, [('eunit', '--eunit'), ('lunit', '--vunit'), ('funit', '--funit'), ('tunit', '--tunit'), ('punit', '--punit'),
                       ('scheme', '-s'), ('min', '-m'), ('eos', '--eos'), ('edeg', '--edeg'), ('fdeg', '--fdeg'), ('Trange', '-T'),
                       ('Prange', '-P')])
    if c['upper']:
        opts = [(o, [v[0].upper()] if o in ('-s', '-m') else v) for o, v in opts]
    if c['kieffer']:
        opts.append(('-a', []))
    h5, text = command(c, ctx, 'qha', opts, '_QHA', direct)
    if text is None:
        ctx.note('refused run')
    else:
        head = text.split('Job:')[0]
        check(('Equation of State' in head) == (c['min'] == 'eos') and ('frequency interpolation' in head) == (c['scheme'] == 'freq'),
              'the log describes other settings: {}', head[-900:])
        for label, v in (('energy:', c['edeg']), ('frequency:', c['fdeg'])):
            check(re.search(r'- {}\s+{}\s*$'.format(label, v), head, re.M), 'the log does not give the degree {} {}', label, v)
    for k in c['drop']:
        ctx.note('default ' + k)
    if c['kieffer']:
        ctx.note('acoustic')
    ctx.interesting(len(opts) > 1 or c['exists'])


@st.composite
def soec_case(draw):
    c = draw(p23.soec_case())
    c.update(draw(frame()))
    c['punit'] = draw(st.booleans())
    c['polar'] = draw(st.booleans())
    c['plot'] = draw(st.booleans()) and c['polar']
    c['dpi'] = draw(st.sampled_from([None, 30, 55]))
    c['nrad'] = draw(st.integers(5, 9))
    return c


def soec_body(c, ctx):
    from quantas.soec.soec import SOECCalculator
    C = el.make(c)
    if not el.stable(C, 5e-3):
        ctx.note('unstable, left out')
        return
    with open(os.path.join(ctx.scratch, c['name']), 'w') as f:
        f.write(el.soec_text(C, rho=c['rho'] or None))

    def direct(path, log):
        calc = SOECCalculator({'polar': c['polar'], 'silent': True, 'debug': False, 'logfile': log, 'pressure_unit': 'GPa', 'plotting': False,
                               'outfig': None, 'dpi': 80})
        err = calc.read_input(path)
        check(err is None, 'input refused: {}', err)
        calc.report_input_data()
        calc.run()
        check(calc.completed, 'run not completed: {}', calc.error)
        return calc, None
    opts = []
    if c['punit']:
        opts.append(('--punit', ['GPa']))
    if c['polar']:
        opts.append(('--polar', []))
    if c['plot']:
        opts.append(('-p', []))
    if c['dpi']:
        opts.append(('--dpi', [str(c['dpi'])]))
    figures = []
    if c['plot']:
        figures = ['E', 'G', 'LC', 'Nu'] + (['waves'] if c['rho'] else [])
    # a full-density polar section takes over a minute: the same functions with fewer directions
    full = SOECCalculator.calculate_polar_properties

    def coarse(self, *a, **k):
        return full(self, nrad=c['nrad'])
    SOECCalculator.calculate_polar_properties = coarse
    try:
        command(c, ctx, 'soec', opts, '_SOEC', direct, figures)
    finally:
        SOECCalculator.calculate_polar_properties = full
    ctx.note('polar {} plot {}'.format(c['polar'], c['plot']))
    ctx.interesting(True)


# --- invalid invocations ----------------------------------------------------------------------------------------------------------
CMDS = ['ha', 'qha', 'soec', 'eosfit', 'export ha', 'export qha', 'export soec', 'inpgen ha', 'inpgen soec']
BADFILE = ['missing', 'folder', 'empty', 'binary', 'text', 'other', 'latin']
BADOPT = ['unknown', 'choice', 'number', 'missing value', 'range zero', 'range nan', 'range inf', 'range backwards', 'range down', 'range cold', 'range cold',
          'degree', 'no folder', 'folder as output', 'two files', 'no file', 'command']
BADOUT = ['input as output', 'input as log', 'input by link']
EOS = 'JOB\nx\nFORMAT\nP V\nDATA\n' + ''.join('{:.4f} {:.4f}\n'.format(p, 75. - 0.4 * p) for p in range(8))


@st.composite
def invalid_case(draw):
    kind = draw(st.sampled_from(['file', 'option', 'option', 'output']))
    c = draw(frame())
    c.update(kind=kind, cmd=draw(st.sampled_from(CMDS)), what=draw(st.sampled_from({'file': BADFILE, 'option': BADOPT, 'output': BADOUT}[kind])),
             seed=draw(st.integers(0, 10 ** 6)), P=draw(st.booleans()), ends=draw(st.sampled_from([[0., 100., 10.], [300., 310., 0.5]])))
    if c['what'].startswith('range') or c['what'] == 'degree':
        c['cmd'] = draw(st.sampled_from(['ha', 'qha'])) if c['what'] != 'degree' else 'qha'
    return c


def good_input(cmd, path):
    if cmd in ('ha', 'qha'):
        c = {'nat': 1, 'nq': 1, 'V0': 20., 'K0': 100., 'KP': 4., 'E0': -10., 'x': np.linspace(-0.08, 0.08, 6).tolist(), 'static': 'bm', 'w': [1],
             'seed': 3, 'gamma': 'power', 'gmin': 0.8, 'gamma_pt': False, 'fmax': 500.}
        Q.write(c, path)
    elif cmd == 'soec':
        with open(path, 'w') as f:
            f.write(el.soec_text(np.diag([200., 200., 200., 80., 80., 80.]) + 40. * np.pad(1. - np.eye(3), ((0, 3), (0, 3)))))
    elif cmd == 'eosfit':
        with open(path, 'w') as f:
            f.write(EOS)
    elif cmd.startswith('export'):
        p23.result_file(cmd.split()[1], path)
    else:
        with open(path, 'w') as f:
            f.write('no ab initio code wrote this\n')


def invalid_body(c, ctx):
    cmd, what = c['cmd'], c['what']
    rng = np.random.RandomState(c['seed'])
    gen = cmd.startswith('inpgen')
    calc = cmd in ('ha', 'qha', 'soec', 'eosfit')
    name = c['name'] if not cmd.startswith('export') else 'r.hdf5'
    path = os.path.join(ctx.scratch, name)
    good_input(cmd, path)
    out, opts, extra = os.path.join(ctx.scratch, 'out'), [], []
    if c['kind'] == 'file':
        if what == 'missing':
            os.remove(path)
        elif what == 'folder':
            os.remove(path)
            os.mkdir(path)
        elif what in ('empty', 'binary', 'text', 'latin'):
            with open(path, 'wb') as f:
                f.write({'empty': b'', 'binary': rng.bytes(2000), 'text': b'Once upon a time\nthere was no number\n\n1 2 3\n',
                         'latin': 'temp\xe9rature\n 1 2 3\n'.encode('latin-1')}[what])
        else:
            other = [k for k in ('ha', 'soec', 'eosfit', 'export ha') if k != cmd and not (k == 'ha' and cmd == 'qha') and k != cmd[:9]]
            if gen:
                other = ['soec', 'eosfit', 'export ha']
            if cmd == 'export qha':
                other.append('export soec')
            good_input(other[c['seed'] % len(other)], path)
    elif c['kind'] == 'option':
        r = '-P' if (c['P'] and cmd == 'qha') else '-T'
        a, b, d = c['ends']
        rng_opts = {'range zero': [a, b, 0.], 'range nan': [a, b, float('nan')], 'range inf': [a, float('inf'), d], 'range backwards': [b, a, d],
                    'range down': [a, b, -d], 'range cold': [-1., b, d] if rng.rand() < .5 else [-5., -4., 1.]}
        if what == 'unknown':
            opts = ['--no-such-option']
        elif what == 'choice':
            opts = {'ha': ['--eunit', 'kJ'], 'qha': ['--eos', 'XX'], 'soec': ['--punit', 'bar'], 'eosfit': ['--vunit', 'm']}.get(cmd, ['-i', 'abinit'])
        elif what == 'number':
            opts = {'ha': ['-T', 'a', '300', '1'], 'qha': ['-P', '0', 'x', '1'], 'soec': ['--dpi', 'high']}.get(cmd, ['-r', 'first', '-T', 'x'])
        elif what == 'missing value':
            opts = {'ha': ['-T', '0', '1'], 'qha': ['-P', '0'], 'soec': ['--dpi']}.get(cmd, ['-o'])
        elif what == 'degree':
            opts = ['--edeg', str([0, 1, 6, -3][c['seed'] % 4])]
        elif what.startswith('range'):
            if cmd not in ('ha', 'qha'):
                return
            if what == 'range cold':
                r = '-T'
                if c['P']:
                    opts, v = ['--tunit', 'C'], [-273.16, 0., 10.]
                else:
                    v = rng_opts[what]
            else:
                v = rng_opts[what]
            opts = opts + [r] + [repr(x) for x in v]
        elif what == 'no folder':
            if cmd.startswith('export'):
                return
            out = os.path.join(ctx.scratch, 'nowhere', 'out')
        elif what == 'folder as output':
            if not calc:
                return
            os.mkdir(out + {'eosfit': '.log'}.get(cmd, ['.hdf5', '.txt'][c['seed'] % 2]))
        elif what == 'two files':
            extra = [path]
        elif what == 'command':
            cmd = ['haa', 'soecs', 'QHA', 'x', 'inpgen', 'export', 'inpgen qha', 'export eosfit'][c['seed'] % 8]
            if cmd in ('inpgen', 'export'):
                cmd += ' ' + path
    else:
        if cmd.startswith('export'):
            return
        ext = {'ha': '.txt', 'qha': '.txt', 'soec': '.txt', 'eosfit': '.log', 'inpgen ha': '.yaml', 'inpgen soec': '.dat'}[cmd]
        if what == 'input as output' and cmd in ('ha', 'qha', 'soec'):
            ext = '.hdf5'
        new = os.path.join(ctx.scratch, 'data.v1' + ext)
        os.rename(path, new)
        path, out = new, new[:-len(ext)]
        if what == 'input by link':
            os.symlink(new, os.path.join(ctx.scratch, 'link' + ext))
            out = os.path.join(ctx.scratch, 'link')
            if c['P']:
                path, out = out + ext, new[:-len(ext)]
    fill(ctx.scratch, ['keep.txt', 'keep.hdf5'])
    if c['exists']:
        for e in ('.hdf5', '.yaml', '.dat'):
            if not os.path.isdir(os.path.dirname(out)) or os.path.exists(out + e):
                continue
            fill(ctx.scratch, [os.path.relpath(out + e, ctx.scratch)])
    before = tree(ctx.scratch)
    args = cmd.split(' ') if not (what == 'command') else cmd.split(' ', 1)
    if not cmd.startswith('export') and not (what == 'command') and opts[-1:] != ['-o']:
        opts = ['-o', out] + opts
    if what != 'no file':
        extra = [path] + extra
    args += extra + opts if (c['first'] or opts[-1:] in (['-o'], ['--dpi']) or what == 'missing value') else opts + extra
    r = invoke(args, 'y\n' * 5)
    after = tree(ctx.scratch)
    logs = [os.path.relpath(out, ctx.scratch) + e for e in ('.txt', '.log')] if c['kind'] == 'file' else []
    unchanged(before, after, logs, '{} with {}'.format(cmd, what))
    for n in logs:
        if n in after:
            check(not rows(after[n].decode('utf8')), '{} with {}: the log shows results', cmd, what)
    from quantas.cmdline.utils.messages import quantas_error
    check('Thank you for using' not in r.output, '{} with {} ends as if all were well: {}', cmd, what, r.output[-400:])
    check('Error' in r.output or 'Usage' in r.output or quantas_error().strip() in r.output, '{} with {}: no error shown: {!r}', cmd, what,
          r.output[-300:])
    ctx.note(what)
    ctx.interesting(c['exists'] or c['kind'] != 'option')


# --- damaged inputs -----------------------------------------------------------------------------------------------------------------
JUNK = ['nan', 'x', '-1', '0', '1e400', '1.5', '[', '{}', ':', '***', '-', 'inf', '1e3', '2', '\u00e9', '"', "'", '%', '\t', '&a', '*a', '!!']


@st.composite
def garbled_case(draw):
    n = draw(st.integers(1, 3))
    return {'cmd': draw(st.sampled_from(['ha', 'qha', 'soec', 'eosfit'])), 'existed': draw(st.booleans()),
            'edits': [[draw(st.sampled_from(['drop', 'twice', 'swap', 'cut', 'line', 'token', 'token', 'remove', 'repeat', 'short'])),
                       draw(st.integers(0, 10 ** 4)), draw(st.integers(0, 10 ** 4)), draw(st.integers(0, len(JUNK) - 1))] for _ in range(n)]}


def garble(text, edits):
    lines = text.split('\n')
    for how, i, j, k in edits:
        if not lines:
            break
        i %= len(lines)
        if how == 'drop':
            del lines[i]
        elif how == 'twice':
            lines.insert(i, lines[i])
        elif how == 'swap':
            j %= len(lines)
            lines[i], lines[j] = lines[j], lines[i]
        elif how == 'cut':
            lines = lines[:i]
        elif how == 'line':
            lines.insert(i, ['', '#', JUNK[k], 'DATA', '- 1'][j % 5])
        else:
            t = lines[i].split(' ')
            idx = [q for q, w in enumerate(t) if w]
            if not idx:
                continue
            q = idx[j % len(idx)]
            if how == 'token':
                t[q] = JUNK[k]
            elif how == 'remove':
                del t[q]
            elif how == 'repeat':
                t.insert(q, t[q])
            else:
                t[q] = t[q][:k % (len(t[q]) + 1)]
            lines[i] = ' '.join(t)
    return '\n'.join(lines)


def garbled_body(c, ctx):
    from quantas.soec.soec import SOECCalculator
    cmd = c['cmd']
    path = os.path.join(ctx.scratch, 'in.dat')
    good_input(cmd, path)
    with open(path, encoding='utf8') as f:
        text = f.read()
    with open(path, 'w', encoding='utf8') as f:
        f.write(garble(text, c['edits']))
    fill(ctx.scratch, ['keep.txt', 'in.hdf5'] + (['out.hdf5'] if c['existed'] else []))
    before = tree(ctx.scratch)
    run = SOECCalculator.run
    if cmd == 'soec':                  # the analysis itself takes seconds and belongs to other checks
        SOECCalculator.run = lambda self: setattr(self, 'error', 'left out')
    try:
        r = invoke([cmd, path, '-o', os.path.join(ctx.scratch, 'out')], 'v\n2\n3\nn\nn\n' if cmd == 'eosfit' else 'n\n')
    finally:
        SOECCalculator.run = run
    after = tree(ctx.scratch)
    done = 'Thank you for using' in r.output or cmd == 'eosfit'
    unchanged(before, after, ['out.txt', 'out.log'] + (['out.hdf5'] if done and not c['existed'] else []), '{} of a damaged input'.format(cmd))
    if cmd in ('ha', 'qha') and not c['existed']:
        check(('out.hdf5' in after) == done, '{} {} but results are {}', cmd, 'ends well' if done else 'fails',
              'saved' if 'out.hdf5' in after else 'missing')
    if not done:
        from quantas.cmdline.utils.messages import quantas_error
        check(quantas_error().strip() in r.output, '{} of a damaged input shows no error: {!r}', cmd, r.output[-300:])
    ctx.note(cmd + (' accepted' if done else ' refused'))
    ctx.interesting(not done)


# --- the overwrite dialogue of the exporters ----------------------------------------------------------------------------------------
@st.composite
def answers_case(draw):
    c = {'kind': draw(st.sampled_from(['ha', 'qha', 'soec'])), 'present': draw(st.lists(st.integers(0, 5), unique=True, max_size=5)), 'steps': []}
    for _ in range(draw(st.integers(1, 4))):
        c['steps'].append({'key': draw(st.integers(0, 1)), 'answers': draw(st.lists(st.tuples(st.sampled_from(['n', 'n', 'y', '', 'N', 'what\nn']),
                                                                                             st.integers(0, 6)).map(list), min_size=4, max_size=4))})
    return c


def answers_body(c, ctx):
    path = os.path.join(ctx.scratch, 'r.hdf5')
    p23.result_file(c['kind'], path)
    keys = {'ha': ['F', 'Cv'], 'qha': ['F', 'Cv'], 'soec': ['E', 'LC']}[c['kind']]
    pool = ['r_{}.dat'.format(keys[0]), 'r_{}.dat'.format(keys[1]), 'a.txt', 'b.dat', 'r.txt', 'notes', 'r.hdf5']
    fill(ctx.scratch, [pool[i] for i in c['present']])
    before = tree(ctx.scratch)
    model = {n: None for n in before}           # name -> key written there
    lines, nfresh = [], 0
    for i, s in enumerate(c['steps']):
        k = keys[s['key']]
        lines.append(k)
        name = 'r_{}.dat'.format(k)
        q = list(s['answers'])
        while name in model:
            a, j = q.pop(0) if q else ('n', None)
            if name == 'r.hdf5' and a == 'y':
                a = 'n'                          # the file being read is never given up
            lines.append(a)
            if a == 'y':
                break
            if j is None:
                nfresh += 1
                name = 'fresh{}.dat'.format(nfresh)
            else:
                name = pool[j]
            lines.append(os.path.join(ctx.scratch, name))
        model[name] = k
        lines.append('y' if i < len(c['steps']) - 1 else 'n')
    r = invoke(['export', c['kind'], path], '\n'.join(lines) + '\n')
    check(r.exit_code == 0, 'export ended with status {}: the dialogue differs from the documented one\n{}', r.exit_code, r.output[-800:])
    after = tree(ctx.scratch)
    check(sorted(after) == sorted(model), 'files {} instead of {}', sorted(after), sorted(model))
    plain = {}
    clean = os.path.join(ctx.scratch, 'clean')
    os.mkdir(clean)
    for k in keys:
        p23.result_file(c['kind'], os.path.join(clean, 'r.hdf5'))
        invoke(['export', c['kind'], os.path.join(clean, 'r.hdf5')], k + '\nn\n')
        with open(os.path.join(clean, 'r_{}.dat'.format(k)), 'rb') as f:
            plain[k] = f.read()
    for n, k in model.items():
        if k is None:
            check(after[n] == before[n], '{} was overwritten although that was never confirmed', n)
        else:
            check(after[n] == plain[k], '{} does not hold the table of {}', n, k)
    ctx.note('{} files before'.format(len(c['present'])))
    ctx.interesting(len(c['present']) > 0 or len(c['steps']) > 1)


# --- eosfit -------------------------------------------------------------------------------------------------------------------------
@st.composite
def eosfit_case(draw):
    c = draw(frame())
    c.update(v0=draw(st.floats(50., 500.)), k0=draw(st.floats(40., 300.)), n=draw(st.integers(8, 14)), units=draw(st.booleans()),
             eos=draw(st.lists(st.sampled_from(['m', 'bm', 'v']), min_size=1, max_size=2)), name=draw(st.sampled_from(['MgO.dat', 'MgO.v1.dat', 'input'])))
    return c


def eosfit_body(c, ctx):
    from props.p10 import parse_reports, KEYS, CLASSES
    names = [n for n in ('bm', 'vinet', 'murnaghan') if n in KEYS] or sorted(KEYS)[:1]
    x = np.linspace(0.9, 1., c['n'])
    e = (1. / x) ** (1. / 3.)
    p = 1.5 * c['k0'] * (e ** 7 - e ** 5)
    path = os.path.join(ctx.scratch, c['name'])
    with open(path, 'w') as f:
        f.write('JOB\ntest\nFORMAT\nP V\nDATA\n' + ''.join('{:.8f} {:.8f}\n'.format(a, b) for a, b in zip(p, c['v0'] * x)))
    answers = ['v']
    picks = [names[len(k) % len(names)] for k in c['eos']]
    for i, k in enumerate(picks):
        answers += [KEYS[k], str(CLASSES[k][1][0]), 'n', 'n', 'n']
        answers += ['y', 'y'] if i < len(picks) - 1 else ['n', 'n']
    base = os.path.normpath(c['out']) if c['out'] is not None else os.path.splitext(c['name'])[0]
    log = base + '.log'
    os.makedirs(os.path.dirname(os.path.join(ctx.scratch, log)), exist_ok=True)
    fill(ctx.scratch, [base + '.txt', base + '.hdf5'] + ([log] if c['log'] else []))
    before = tree(ctx.scratch)
    opts = ['--punit', 'GPa', '--vunit', 'A'] if c['units'] else []
    if c['relative']:
        with inside(ctx.scratch):
            r = invoke(['eosfit', c['name']] + opts + ([] if c['out'] is None else ['-o', c['out']]), '\n'.join(answers) + '\n')
    else:
        r = invoke(['eosfit', path] + opts + ([] if c['out'] is None else ['-o', os.path.join(ctx.scratch, c['out'])]), '\n'.join(answers) + '\n')
    check(r.exit_code == 0, 'eosfit ended with status {}: {}', r.exit_code, r.output[-400:])
    after = tree(ctx.scratch)
    unchanged(before, after, [log], 'eosfit')
    check(log in after, 'no log {} among {}', log, sorted(after))
    text = after[log].decode('utf8')
    check(OLD.decode() not in text, 'the log still holds an older text')
    shown = parse_reports(r.output)
    got = parse_reports(text)
    check(len(got) == len(picks), '{} reports in the log instead of {}', len(got), len(picks))
    check(repr(got) == repr(shown), 'screen and log differ')
    check(rows(text) == rows(r.output), 'screen and log show different numbers')
    ctx.interesting(True)


SUBS = [Sub('harmonic', ha_case, ha_body, quick=150, thorough=3000, shards=(3, 8)),
        Sub('quasi-harmonic', qha_case, qha_body, quick=80, thorough=1500, shards=(4, 8)),
        Sub('elastic', soec_case, soec_body, quick=3, thorough=30, shards=(3, 8), hang=300),
        Sub('invalid', invalid_case, invalid_body, quick=400, thorough=6000, shards=(2, 8)),
        Sub('garbled', garbled_case, garbled_body, quick=400, thorough=8000, shards=(2, 8)),
        Sub('answers', answers_case, answers_body, quick=150, thorough=3000, shards=(2, 8)),
        Sub('eosfit', eosfit_case, eosfit_body, quick=60, thorough=1000, shards=(1, 4))]
