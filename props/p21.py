"""P21: elastic inputs generated from ab initio outputs."""
import os
import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st
from vlib import elastic as el
from vlib.core import Sub, check, close, fail

RULE = ('Generated: elastic tensors of every symmetry (rotated, so that all 21 components matter) printed in CRYSTAL and VASP outputs of '
        'random length, with clamped-ion and relaxed blocks, several geometries and densities; sequences of generations with shared '
        'and separate generators and failed ones in between; outputs cut, emptied or with unreadable elements. Oracle: the printed '
        'tensor, through the generated file and the provided reader. Non-trivial: non-cubic tensors, more than one generation, '
        'every damaged output.')
ASSUMPTIONS = ['the generated file keeps four decimals (GPa) and one decimal of the density',
               'a title holds at least one word that is not a number (otherwise the elastic input format takes it for a matrix row)',
               'when an output holds relaxed-ion ("TOTAL") moduli these are the ones of the crystal',
               'outputs are damaged in the section that is used']

TITLES = ['MgO Elastic moduli analysis', 'x', '3C-SiC', 'caf\u00e9 (B3LYP), 100 GPa', 'a: b', "it's #1 {0} %s"]
NOISE = [' ', ' TTTTTTTTTTTTTTTTTTTTTTTTTTTTTT GRAD        TELAPSE      112.53 TCPU      110.94', ' INFORMATION **** READM2 **** FULL DIRECT SCF',
         '   1   -2.75  0.000   1.000E-08', ' CYC   0 ETOT(AU) -2.747116923124E+02 DETOT -2.75E+02', '  POSITION                                       TOTAL-FORCE (eV/Angst)',
         ' |   1.000   2.000   3.000   4.000   5.000   6.000 |', ' XX  1.0 2.0 3.0 4.0 5.0 6.0']


@st.composite
def output(draw, program=None):
    c = draw(el.tensors())
    c['program'] = program or draw(st.sampled_from(['crystal', 'vasp']))
    c['rho'] = draw(st.sampled_from([3.513, 0.512, 2.65, 13.2, 22.59]))
    c['rhos'] = draw(st.lists(st.floats(0.3, 20.).map(lambda x: round(x, 3)), max_size=2))
    c['density'] = draw(st.sampled_from([True, True, True, False]))
    c['blocks'] = draw(st.sampled_from(['clamped', 'both', 'both', 'contribution', 'twice', 'reversed']))
    c['noise'] = draw(st.lists(st.lists(st.integers(0, len(NOISE) - 1), max_size=5), min_size=4, max_size=4))
    c['turn'] = draw(st.booleans())
    return c


def tensor(c):
    """the tensor in GPa with the digits printed by the program"""
    C = el.make(c)
    if c['turn']:
        C = el.rotate(C, el.random_rotation(np.random.RandomState(c['seed'] + 1)))
        C = 0.5 * (C + C.T)
    if c['program'] == 'crystal':
        top = np.abs(C).max()
        if top >= 900.:
            C = C * 900. / top
        return np.round(C, 3) + 0.
    return np.round(C * 10., 4) / 10. + 0.


def noise(c, i):
    return [NOISE[j] for j in c['noise'][i]]


def crystal_cell(rho, title):
    return [title, ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)', ' ' + '*' * 79,
            ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 ANGSTROM',
            ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=    18.896862 - DENSITY %6.3f g/cm^3' % rho,
            '         A              B              C           ALPHA      BETA       GAMMA ',
            '     2.98975014     2.98975014     2.98975014    60.000000  60.000000  60.000000', '']


def crystal_lines(c):
    """lines and index of the first matrix row"""
    C = tensor(c)
    out = noise(c, 0)
    if c['rhos']:
        out += crystal_cell(c['rhos'][0], ' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3')
    if c['density']:
        out += ['', ' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', ''] + noise(c, 1)
        out += crystal_cell(c['rho'], ' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3')
    out += noise(c, 2) + [' ' + '*' * 72, ' * ELASTCON OPTION, W.F. PERGER, B. CIVALLERI, R. DOVESI                *', ' ' + '*' * 72, '']
    for r in c['rhos'][1:]:
        out += crystal_cell(r, ' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3')
    out += noise(c, 3) + ['                           FINAL RESULTS START', ' ' + '*' * 72, '',
                          ' DATA FOR MAXIMUM NUMBER OF POINTS AND ORDER OF FIT', '',
                          ' SYMMETRIZED ELASTIC CONSTANTS FOR TRICLINIC    CASE, IN GPa', '']
    first = len(out)
    S = np.linalg.inv(C) * 1000.
    for M, f in ((C, '%9.3f'), (S, '%9.4f')):
        for i in range(6):
            out.append(' |' + ' ' * 9 * i + ''.join(f % x for x in M[i, i:]) + ' |')
        if M is C:
            out += ['', '', ' ELASTIC MODULI (COMPLIANCE TENSOR), IN TPa^-1', '']
    out += ['', ' BULK MODULUS K, SHEAR MODULUS G, YOUNG MODULUS E AND', '  168.06  141.24  168.06  132.12  168.06  136.68  322.59   0.180', '']
    return out, first


VASP = [0, 1, 2, 5, 3, 4]           # XX YY ZZ XY YZ ZX in Voigt positions
LAB = ['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX']


def vasp_block(title, C):
    M = C[np.ix_(VASP, VASP)] * 10.
    return ['  ' + title, ' Direction    XX          YY          ZZ          XY          YZ          ZX', ' ' + '-' * 80] + \
        [' %s     ' % LAB[i] + ''.join('%12.4f' % x for x in M[i]) for i in range(6)] + [' ' + '-' * 80, '', '']


def vasp_lines(c):
    C = tensor(c)
    rng = np.random.RandomState(c['seed'])
    other = np.round(rng.uniform(-50., 50., (6, 6)), 5)
    other = other + other.T
    clamped = C if c['blocks'] == 'clamped' else C + other
    raw = clamped + np.round(rng.uniform(-3., 3., (6, 6)), 5)
    out = noise(c, 0) + [' volume of cell :      530.52', ''] + vasp_block('ELASTIC MODULI  (kBar)', raw)
    first = len(out) + 3
    if c['blocks'] == 'reversed':
        first = len(out) + 3
        out += vasp_block('TOTAL ELASTIC MODULI (kBar)', C) + noise(c, 2)
    out += vasp_block('SYMMETRIZED ELASTIC MODULI (kBar)', clamped) + noise(c, 1)
    if c['blocks'] not in ('clamped', 'reversed'):
        if c['blocks'] != 'both':
            out += vasp_block('ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', -other) + noise(c, 2)
        if c['blocks'] == 'twice':
            out += vasp_block('TOTAL ELASTIC MODULI (kBar)', C) + noise(c, 3)
        first = len(out) + 3
        out += vasp_block('TOTAL ELASTIC MODULI (kBar)', C)
    return out + noise(c, 3), first


def lines_of(c):
    return crystal_lines(c) if c['program'] == 'crystal' else vasp_lines(c)


def put(path, lines):
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')


def density(c):
    return c['rho'] * 1000. if c['program'] == 'crystal' and c['density'] else 0.


def check_file(path, c, title):
    from quantas.IO.soec_reader import SOECInputFileReader
    from quantas.soec.soec import SOECCalculator
    r = SOECInputFileReader(path)
    check(r.completed, 'the generated file is refused: {}', r.error)
    C = tensor(c)
    close(r.stiffness, C, rtol=1e-12, atol=5.1e-5, what='{} stiffness read back'.format(c['program']))
    check(np.array_equal(r.stiffness, r.stiffness.T), 'the matrix read back is not symmetric')
    check(r.jobname == title, 'title {!r} read back as {!r}', title, r.jobname)
    close(float(r.density), density(c), atol=0.0501, what='density read back')
    if el.stable(C, 1e-2):
        calc = SOECCalculator({'polar': False, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa', 'plotting': False,
                               'outfig': None, 'dpi': 80})
        check(calc.read_input(path) is None, 'the generated file is refused by the calculator')
        close(calc.soec.stiffness, C, rtol=1e-12, atol=5.1e-5, what='stiffness of the calculator')


def cli_generate(program, path, out, title):
    from quantas.cmdline.commands.cmd_quantas import cli
    args = ['inpgen', 'soec', path, '-i', program] + (['-o', out] if out else [])
    r = CliRunner().invoke(cli, args, input=title + '\n')
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        fail('inpgen stopped with {!r}: {}', r.exception, r.output[-300:])
    return r


# --- single generations --------------------------------------------------------------------------------------------------------
@st.composite
def single_case(draw):
    c = draw(output())
    c['title'] = draw(st.sampled_from(TITLES))
    c['cli'] = draw(st.sampled_from([False, False, True]))
    c['named'] = draw(st.booleans())
    return c


def single_body(c, ctx):
    from quantas.IO.soec_writer import SOECInputCreator
    path = os.path.join(ctx.scratch, 'run.out')
    put(path, lines_of(c)[0])
    with open(path, 'rb') as f:
        before = f.read()
    if c['cli']:
        out = os.path.join(ctx.scratch, 'elastic') if c['named'] else None
        cli_generate(c['program'], path, out, c['title'])
        name = 'elastic.dat' if out else 'run_soec_input.dat'
        check(sorted(os.listdir(ctx.scratch)) == sorted(['run.out', name]), 'files: {}', sorted(os.listdir(ctx.scratch)))
        new = os.path.join(ctx.scratch, name)
    else:
        g = SOECInputCreator(c['program'])
        ok, err = g.read(path)
        check(ok is True and err is None, 'a valid output is refused: {}', err)
        C = tensor(c)
        close(g.soec_data.stiffness, C, rtol=1e-12, atol=1e-9, what='stiffness collected from the output')
        new = os.path.join(ctx.scratch, 'new.dat')
        g.write(new, c['title'])
        close(g.soec_data.stiffness, C, rtol=1e-12, atol=1e-9, what='stiffness after writing')
    check_file(new, c, c['title'])
    with open(path, 'rb') as f:
        check(f.read() == before, 'the ab initio output has changed')
    ctx.note(c['program'])
    ctx.interesting(c['system'] not in ('cubic', 'isotropic') or c['turn'])


# --- sequences ------------------------------------------------------------------------------------------------------------------
@st.composite
def sequence_case(draw):
    outs = draw(st.lists(output(), min_size=2, max_size=3))
    ops = draw(st.lists(st.tuples(st.sampled_from(['read', 'read', 'read', 'write', 'write', 'bad']), st.integers(0, len(outs) - 1),
                                  st.sampled_from(['shared', 'new'])).map(list), min_size=2, max_size=7))
    return {'outs': outs, 'ops': ops}


def sequence_body(c, ctx):
    """reads and writes in any order; a generator always writes what it read last"""
    from quantas.IO.soec_writer import SOECInputCreator
    paths = []
    for i, o in enumerate(c['outs']):
        paths.append(os.path.join(ctx.scratch, 'o%d.out' % i))
        put(paths[-1], lines_of(o)[0])
    gens = {}       # program -> shared generator
    state = []      # (generator, data object, index)
    made = []
    for k, (op, i, how) in enumerate(c['ops']):
        o = c['outs'][i]
        if op in ('read', 'bad'):
            if how == 'shared':
                g = gens.setdefault(o['program'], SOECInputCreator(o['program']))
            else:
                g = SOECInputCreator(o['program'])
            if op == 'read':
                ok, err = g.read(paths[i])
                check(ok is True, 'a valid output is refused: {}', err)
                state = [s for s in state if s[0] is not g] + [(g, g.soec_data, i)]
            else:
                lines, first = lines_of(o)
                bad = os.path.join(ctx.scratch, 'bad.out')
                put(bad, lines[:first + 3] + [lines[first + 3].replace(lines[first + 3].split()[-2], '********')] + lines[first + 4:])
                ok, err = g.read(bad)
                check(ok is False and bool(err), 'a damaged output is accepted')
                state = [s for s in state if s[0] is not g]
        elif state:
            g, _, j = state[i % len(state)]
            new = os.path.join(ctx.scratch, 'w%d.dat' % k)
            g.write(new, 'title %d x' % k)
            made.append((new, j, 'title %d x' % k))
        for g, d, j in state:
            close(d.stiffness, tensor(c['outs'][j]), rtol=1e-12, atol=1e-9, what='stiffness collected earlier')
            close(d.density, density(c['outs'][j]), rtol=1e-12, what='density collected earlier')
    for g, d, j in state:
        new = os.path.join(ctx.scratch, 'end.dat')
        g.write(new, 'the end')
        check_file(new, c['outs'][j], 'the end')
    for new, j, t in made:
        check_file(new, c['outs'][j], t)
    ctx.interesting(len(state) + len(made) > 1)


# --- damaged outputs --------------------------------------------------------------------------------------------------------------
DAMAGE = ['cut', 'stars', 'word', 'nan', 'missing', 'norow', 'empty', 'scf', 'other', 'binary', 'unfinished']


@st.composite
def damaged_case(draw):
    c = draw(output())
    c['damage'] = draw(st.sampled_from(DAMAGE))
    c['at'] = draw(st.floats(0., 0.999))
    c['row'] = draw(st.integers(0, 5))
    c['col'] = draw(st.integers(0, 5))
    return c


def damaged_body(c, ctx):
    from quantas.IO.soec_writer import SOECInputCreator
    lines, first = lines_of(c)
    kind = c['damage']
    r = first + c['row']
    path = os.path.join(ctx.scratch, 'bad.out')
    if kind == 'cut':
        lo = 0
        if c['program'] == 'vasp' and c['blocks'] != 'clamped':
            lo = first - 3
            while lo > 0 and c['blocks'] == 'twice' and 'TOTAL' not in lines[lo]:
                lo -= 1
            lo += 1
        lines = lines[:lo + int(c['at'] * (first + 6 - lo))]
        if c['program'] == 'vasp' and c['blocks'] == 'twice' and sum('TOTAL ELASTIC' in l for l in lines) < 2:
            ctx.note('cut between the blocks, left out')
            return
    elif kind in ('stars', 'word', 'nan', 'missing'):
        words = lines[r].split()
        if c['program'] == 'crystal':
            nums = words[1:-1] if words[-1] == '|' else words[1:]
            k = c['col'] % len(nums)
            nums[k:k + 1] = {'stars': ['*********'], 'word': ['x12.3'], 'nan': ['NaN'], 'missing': []}[kind]
            lines[r] = ' | ' + ' '.join(nums) + ' |'
        else:
            nums = words[1:]
            nums[c['col']:c['col'] + 1] = {'stars': ['************'], 'word': ['x12.3'], 'nan': ['NaN'], 'missing': []}[kind]
            lines[r] = ' ' + words[0] + '  ' + ' '.join(nums)
    elif kind == 'norow':
        del lines[r]
    elif kind == 'empty':
        lines = []
    elif kind == 'scf':
        lines = noise(c, 0) + noise(c, 1)
    elif kind == 'other':       # the output of the other program
        o = dict(c, program='vasp' if c['program'] == 'crystal' else 'crystal')
        lines = lines_of(o)[0]
    elif kind == 'unfinished':
        words = ['FINAL RESULTS START'] if c['program'] == 'crystal' and c['at'] < 0.7 else \
            ['FINAL RESULTS START', 'ELASTIC MODULI (kBar)', 'SYMMETRIZED ELASTIC CONSTANTS']
        lines = [l for l in lines if not any(w in l for w in words)]
    if kind == 'binary':
        with open(path, 'wb') as f:
            f.write(np.random.RandomState(c['seed']).bytes(2000) + b'\xff\xfe\x80')
    else:
        put(path, lines)
        g = SOECInputCreator(c['program'])
        ok, err = g.read(path)
        check(ok is False, 'a {} output ({}) is accepted', c['program'], kind)
        check(isinstance(err, str) and err.strip(), 'no reason is given: {!r}', err)
    r = cli_generate(c['program'], path, os.path.join(ctx.scratch, 'res'), 'damaged case')
    check(sorted(os.listdir(ctx.scratch)) == ['bad.out'], 'files were written: {}', sorted(os.listdir(ctx.scratch)))
    if kind != 'binary':
        check(err.split('\n')[0] in r.output, 'the reason {!r} is not shown', err)
    ctx.note(kind)
    ctx.interesting(True)


SUBS = [Sub('single', single_case, single_body, quick=120, thorough=2500, shards=(2, 8)),
        Sub('sequences', sequence_case, sequence_body, quick=100, thorough=2000, shards=(2, 8)),
        Sub('damaged', damaged_case, damaged_body, quick=150, thorough=3000, shards=(2, 8))]
