"""P22: phonon inputs generated from ab initio outputs."""
import builtins
import os
import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st
from vlib.core import Sub, check, close, fail
from vlib.phin import C_CM

RULE = ('Generated: phonon runs of 1-4 atoms printed as CRYSTAL outputs (gamma point, supercell, SCELPHONO meshes with and without '
        'interpolation), CRYSTAL quasi-harmonic outputs and phonopy files, with any supercell, triclinic and left-handed cells, '
        'imaginary and degenerate modes, 1-6 volumes in any order and any reference; sequences with shared and separate generators '
        'and failed reads; damaged and mutually inconsistent sets. Oracle: the printed numbers, through the generated file and the '
        'provided reader. Non-trivial: supercells or several q-points or several volumes, every damaged set.')
ASSUMPTIONS = ['the generated file keeps 8 decimals of volumes, 12 digits of energies, 10 decimals of frequencies, 7 of q-coordinates '
               'and the digits of weights', 'outputs are damaged in the sections that are used',
               'energies of phonopy inputs come from the VASP file lying beside (last ionic step) and are zero without it']

SOURCES = ['crystal', 'supercell', 'scel', 'interp', 'qha', 'phonopy']
FLAG = {'crystal': 'crystal', 'supercell': 'crystal', 'scel': 'crystal', 'interp': 'crystal', 'qha': 'crystal-qha', 'phonopy': 'phonopy'}
TITLES = ['MgO Gamma-point frequencies', 'x', "it's: a #test {0} %s", '3C-SiC', '12', 'caf\u00e9 - B3LYP', '- a', 'yes', '2020-01-01', '"q" [1, 2]', '@x', 'a: b']
NOISE = [' ', ' TTTTTTTTTTTTTTTTTTTTTTTTTTTTTT GRAD        TELAPSE      112.53 TCPU      110.94', ' [ ... omissis ... ]',
         '   1   -2.75  0.000   1.000E-08', ' CYC   0 ETOT(AU) -2.747116923124E+02 DETOT -2.75E+02',
         ' * CALCULATION OF PHONON FREQUENCIES AT THE GAMMA POINT.                       *',
         ' LATTICE PARAMETERS  (ANGSTROMS AND DEGREES) - PRIMITIVE CELL', ' == SCF ENDED - CONVERGENCE ON ENERGY      E(AU) -2.7546254270088E+02 CYCLES  37']
SYM = ['H', 'O', 'Mg', 'Si', 'Ca', 'U']
Z = [1, 8, 12, 14, 20, 92]


@st.composite
def run(draw, sources=SOURCES, nvmin=1):
    s = draw(st.sampled_from(sources))
    c = {'source': s, 'seed': draw(st.integers(0, 2 ** 31 - 1)), 'natom': draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.sampled_from([9, 12, 35])))}
    nv = draw(st.integers(max(4, nvmin), 7) if s == 'qha' else st.one_of(st.integers(nvmin, 6), st.integers(nvmin, 6), st.just(11) if c['natom'] < 5 else st.just(2)))
    c['nv'] = nv
    c['order'] = draw(st.permutations(range(nv)))
    c['cell'] = draw(st.sampled_from(['cubic', 'triclinic', 'triclinic']))
    c['left'] = draw(st.booleans())
    c['scale'] = draw(st.sampled_from([2.1, 3.0, 4.7, 11.]))
    if s == 'crystal':
        c['dim'] = None
    elif s == 'qha' and draw(st.booleans()):
        c['dim'] = None
    else:
        c['dim'] = draw(st.sampled_from([[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 0, 0], [0, 2, 0], [0, 0, 1]],
                                         [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 3]],
                                         [[0, 1, 0], [1, 0, 0], [0, 0, 2]], [[1, -1, 0], [0, 2, 0], [0, 0, 1]]]))
    nq = 1
    if s in ('scel', 'interp', 'phonopy'):
        nq = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.sampled_from([11, 24]))) if c['natom'] < 5 else draw(st.integers(1, 2))
    c['nq'] = nq
    c['mesh'] = draw(st.lists(st.integers(1, 9), min_size=3, max_size=3))
    c['q'] = draw(st.lists(st.lists(st.integers(-4, 8), min_size=3, max_size=3), min_size=nq, max_size=nq))
    c['weights'] = draw(st.lists(st.sampled_from([1, 2, 3, 4, 12, 0.125, 0.0833, 1.5] if s != 'phonopy' else [1, 2, 6, 8, 24, 48]),
                                 min_size=nq, max_size=nq))
    c['imag'] = draw(st.booleans())
    c['equal'] = draw(st.booleans())
    c['xml'] = draw(st.booleans())
    c['steps'] = draw(st.integers(1, 3))
    c['noise'] = draw(st.lists(st.lists(st.integers(0, len(NOISE) - 1), max_size=4), min_size=3, max_size=3))
    c['title'] = draw(st.sampled_from(TITLES))
    c['name'] = draw(st.sampled_from(['', '', ' of MgO ', '.v1.', ' #', '-\u00e9', '.yaml-', ', \'a\'']))
    return c


def noise(c, i):
    return [NOISE[j] for j in c['noise'][i]]


def physics(c):
    """printed numbers (rounded as printed) and the expected generated content"""
    rng = np.random.RandomState(c['seed'])
    n, nv, nq = c['natom'], c['nv'], c['nq']
    dim = np.array(c['dim'] if c['dim'] else np.identity(3), dtype=int)
    k = int(round(abs(np.linalg.det(dim))))
    base = np.array([[0., .5, .5], [.5, 0., .5], [.5, .5, 0.]]) * 2. if c['cell'] == 'cubic' else np.identity(3) + rng.uniform(-0.25, 0.25, (3, 3))
    base = base * c['scale']
    if (np.linalg.det(base) < 0) != c['left']:
        base = base[[1, 0, 2]]
    strain = np.array([1. + 0.01 * (i - 1) + 0.001 * rng.rand() for i in range(nv)])
    strain = strain[list(c['order'])]
    big = c['source'] in ('supercell', 'scel', 'interp') or c['source'] == 'qha' and c['dim']
    p = {'dim': dim, 'k': k, 'vols': []}
    p['cells'] = []
    for s in strain:
        unit = base * s
        sup = dim @ unit
        digits = lambda m: np.array([[float('%.12E' % x) for x in r] for r in m])
        p['cells'].append((digits(unit), digits(sup)))
    na = n
    if c['source'] == 'supercell':
        na = n * k
    p['natom'] = na
    # frequencies: [q][mode][volume] as printed
    nm = 3 * (n * k if c['source'] in ('supercell', 'qha') else n)
    f = np.zeros((nq, nm, nv))
    for q in range(nq):
        row = rng.uniform(30., 3600., nm)
        if c['equal']:
            row = np.repeat(row[::3], 3)[:nm]
        if q == 0:
            row[:3] = 0.
        if c['imag']:
            row[-1] = -row[-1] / 10.
        row = np.sort(row)
        for v in range(nv):
            f[q, :, v] = row * strain[v] ** -3.
    p['energies'] = [float('%.12E' % (-rng.uniform(1., 9000.) * (k if big else 1))) for v in range(nv)]
    numbers = rng.randint(0, len(Z), n)
    p['z'], p['sym'] = [Z[i] for i in numbers], [SYM[i] for i in numbers]
    if c.get('elements'):       # (number, symbol) of every atom
        p['z'], p['sym'] = [list(x) for x in zip(*c['elements'])]
    p['atoms'] = []             # what is printed: (numbers, positions)
    if c['source'] == 'phonopy':
        p['printed'] = np.array([[[float('%.10f' % (x * C_CM * 1e-12)) for x in m] for m in b] for b in f])
        p['f'] = p['printed'] / (C_CM * 1e-12)
        if not c['xml']:
            p['energies'] = [0.] * nv
    else:
        p['printed'] = np.round(f, 4) + 0.
        p['f'] = p['printed']
    if c['source'] == 'qha':
        # the modes of the supercell are shared among the dummy q-points
        p['f'] = p['f'].reshape(k, 3 * n, nv)
    return p


def expected(c, p=None):
    """content of the generated file"""
    p = p or physics(c)
    k, s = p['k'], c['source']
    inv = np.linalg.inv(p['dim'])
    vols, ens = [], []
    for (unit, sup), e in zip(p['cells'], p['energies']):
        if s == 'supercell':
            vols.append(abs(np.linalg.det(sup)))
        elif s in ('scel', 'interp'):
            vols.append(abs(np.linalg.det(inv @ sup)))
        elif s == 'qha':
            vols.append(abs(np.linalg.det(sup)) / k)
        else:
            vols.append(abs(np.linalg.det(unit)))
        ens.append(e / k if s in ('scel', 'interp', 'qha') else e)
    f, vols, ens = np.array(p['f']), np.array(vols), np.array(ens)
    if s == 'qha':
        o = np.argsort(vols)
        vols, ens, f = vols[o], ens[o], f[:, :, o]
        nq = k
        w, q = [1.] * k, np.zeros((k, 3))
    elif s in ('scel', 'interp'):
        w, q = c['weights'], np.array(c['q'], dtype=float) / np.array(c['mesh'], dtype=float)
    elif s == 'phonopy':
        w, q = c['weights'], np.array([[float('%.7f' % (x / 8.)) for x in r] for r in c['q']])
    else:
        w, q = [1.], np.zeros((1, 3))
    return {'natom': p['natom'], 'dim': p['dim'], 'vols': vols, 'energies': ens, 'f': f, 'weights': np.array(w, dtype=float), 'q': q}


# --- printing -------------------------------------------------------------------------------------------------------------------
def atoms_block(p, n, rng):
    out, pos = [], np.round(rng.uniform(-0.5, 0.5, (n, 3)), 12)
    z, sym = [p['z'][i % len(p['z'])] for i in range(n)], [p['sym'][i % len(p['z'])] for i in range(n)]
    for i, x in enumerate(pos):
        out.append('  %5d T %3d %-2s   %20.12E %20.12E %20.12E' % (i + 1, z[i], sym[i].upper(), x[0], x[1], x[2]))
    p['atoms'].append((z, pos))
    return out


def lattice_block(m):
    return [' DIRECT LATTICE VECTORS CARTESIAN COMPONENTS (ANGSTROM)', '          X                    Y                    Z'] + \
        ['  ' + ''.join(' %20.12E' % x for x in r) for r in m] + ['', '']


def cell_block(title, p, n, m, rng, lattice=True):
    """9 lines then atoms at +11"""
    v = abs(np.linalg.det(m))
    out = [title, ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)', ' ' + '*' * 79,
           ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 ANGSTROM',
           ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=  %12.6f - DENSITY  3.513 g/cm^3' % v,
           '         A              B              C           ALPHA      BETA       GAMMA ',
           '     2.98975014     2.98975014     2.98975014    60.000000  60.000000  60.000000',
           ' ' + '*' * 79,
           ' ATOMS IN THE ASYMMETRIC UNIT    1 - ATOMS IN THE UNIT CELL: %4d' % n,
           '     ATOM                 X/A                 Y/B                 Z/C    ', ' ' + '*' * 79]
    out += atoms_block(p, n, rng)
    out += ['', ' TRANSFORMATION MATRIX PRIMITIVE-CRYSTALLOGRAPHIC CELL', ' -1.0000  1.0000  1.0000  1.0000 -1.0000  1.0000  1.0000  1.0000 -1.0000', '']
    return out + (lattice_block(m) if lattice else [])


def expansion_block(dim):
    out = [' EXPANSION MATRIX OF PRIMITIVE CELL']
    for i, r in enumerate(dim):
        out.append('   E%d' % (i + 1) + ''.join('%12.3f' % x for x in r))
    return out + [' NUMBER OF ATOMS PER SUPERCELL         %d' % 2, '']


def mode_table(row, degenerate):
    out = ['    MODES         EIGV          FREQUENCIES     IRREP  IR   INTENS    RAMAN',
           '             (HARTREE**2)   (CM**-1)     (THZ)             (KM/MOL)']
    i = 0
    while i < len(row):
        j = i
        while degenerate and j + 1 < len(row) and j - i < 2 and row[j + 1] == row[i]:
            j += 1
        out.append('  %3d-%4d  %12.4E %11.4f %9.4f  (Fu )   A (  %7.2f)   I' % (i + 1, j + 1, np.sign(row[i]) * (row[i] / 219474.6) ** 2, row[i],
                                                                          row[i] * C_CM * 1e-12, 0.))
        i = j + 1
    return out + ['']


def star(s):
    return ' * ' + s.ljust(76) + '*'


def crystal_text(c, p, v):
    rng = np.random.RandomState(c['seed'] + 7 * v + 1)
    s, n = c['source'], c['natom']
    unit, sup = p['cells'][v]
    out = ['', ' EEEEEEEEEE STARTING  DATE 26 02 2020 TIME 10:02:56.6'] + noise(c, 0)
    big = s != 'crystal'
    if big:
        out += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', ''] + [' filling'] * 3 + [' ' + '*' * 79, '']
        out += [' ATOMS IN THE ASYMMETRIC UNIT    1 - ATOMS IN THE UNIT CELL: %4d' % n,
                '     ATOM                 X/A                 Y/B                 Z/C    ', ' ' + '*' * 79]
        out += atoms_block(p, n, rng) + ['']
    else:
        out += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '']
    scel = []
    if s in ('scel', 'interp'):
        rows = [star('  %2d    %10.5f      %3d %3d %3d' % (i + 1, w, *q)) for i, (w, q) in enumerate(zip(c['weights'], c['q']))]
        shrink = star('   WITH SHRINKING FACTORS: IS1 = %2d IS2 = %2d IS3 = %2d' % tuple(c['mesh']))
        scel = [' ' + '*' * 79, star('PHONON FREQUENCIES AT A SET OF K POINTS BY USING A SUPERCELL')]
        if s == 'scel':
            scel += [star('THE SUPERCELL IS CHOSEN IN A WAY'), star('THAT PERMITS THE CALCULATION OF MODES AT %4d K POINTS' % c['nq']), star(''),
                     star('       K       WEIGHT       COORD')] + rows + [shrink]
        else:
            scel += [star('THAT PERMITS THE CALCULATION OF MODES AT %4d K POINTS' % (c['nq'] + 3)),
                     star('       K       WEIGHT       COORD')]
            scel += [star('  %2d    %10.5f      %3d %3d %3d' % (i, 9., 7, 7, 7)) for i in range(c['nq'] + 3)]
            scel += [star('   WITH SHRINKING FACTORS: IS1 = 77 IS2 = 77 IS3 = 77'), star('')]
            scel += [star('ACTIVATED INTERPOLATION OF THE HESSIAN UP TO %4d K POINTS' % c['nq'])] + [star('text %d' % i) for i in range(7)]
            scel += [star('       K       WEIGHT       COORD')] + rows + [shrink]
        scel += [' ' + '*' * 79, '']
    if big:
        out += [' ' + '*' * 79, ' * SUPERCELL OPTION' if s == 'supercell' else ' * SUPERCELL OPTION (SCELPHONO)', ' ' + '*' * 79, '']
        out += expansion_block(p['dim'])
    if c['seed'] % 2:
        out += scel
    out += cell_block(' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3', p, n * p['k'] if big else n, sup if big else unit, rng)
    if not c['seed'] % 2:
        out += scel
    out += noise(c, 1)
    out += ['   ATOM      MAX ABS(DGRAD)       TOTAL ENERGY (AU)  N.CYC      DE       SYM',
            '    CENTRAL POINT         %20.12E    37     0.0000E+00    48' % p['energies'][v],
            '    2 O  DX   2.9899E-04      -2.754625418373E+02     6     8.6363E-07     8', '']
    out += noise(c, 2)
    out += [' HHHHHHH', ' EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND HARMONIC TRANSVERSE',
            ' OPTICAL (TO) FREQUENCIES. IRREP LABELS REFER TO SYMMETRY REPRESENTATION', '']
    for q in range(c['nq']):
        if s in ('scel', 'interp'):
            out += [' DISPERSION K POINT NUMBER   %4d' % (q + 1), ' THE POINT HAS WEIGHT %8.3f' % c['weights'][q], '']
        out += mode_table(p['printed'][q, :, v], c['equal'])
    out += [' VIBRATIONAL ANALYSIS:', ' EEEEEEEEEE TERMINATION  DATE 26 02 2020 TIME 10:12:56.6']
    return out


def qha_text(c, p):
    rng = np.random.RandomState(c['seed'] + 3)
    n, k, nv = c['natom'], p['k'], c['nv']
    out = ['', ' ' + '*' * 79] + noise(c, 0)
    if c['dim']:
        out += [' ' + '*' * 79, ' * SUPERCELL OPTION', ' ' + '*' * 79, ''] + expansion_block(p['dim'])
    out += [star('QUASI-HARMONIC APPROXIMATION'), '']
    for v in range(nv):
        out += cell_block(' FINAL OPTIMIZED GEOMETRY - DIMENSIONALITY OF THE SYSTEM      3', p, n * k, p['cells'][v][1], rng) + noise(c, 1)
    # volumes are sorted in the tables
    vols = np.array([abs(np.linalg.det(s)) for _, s in p['cells']])
    o = np.argsort(vols)
    out += [' SORTING VOLUMES/ENERGIES', ' ' + '=' * 40, '', '   VOLUME (A^3)      ENERGY (A.U.)']
    out += ['   %16.8f   %20.12E' % (vols[i], p['energies'][i]) for i in o]
    out += ['', ' ' + '=' * 40] + noise(c, 2)
    for j in range(p['printed'].shape[1]):
        out += [' FREQUENCY # %5d' % (j + 1), '', '   VOLUME     FREQUENCY']
        out += ['   %16.6f   %12.4f' % (vols[i], p['printed'][0, j, i]) for i in o]
        out += ['', ' FITTED FREQUENCY #  %d' % (j + 1), '   1.0   2.0', '   1.0   2.0', '']
    return out


def ylist(m):
    return '[ ' + ', '.join('%18.12f' % x for x in m) + ' ]'


def phonopy_texts(c, p, v):
    rng = np.random.RandomState(c['seed'] + 5 * v + 2)
    unit, sup = p['cells'][v]
    n = c['natom']

    def points(m):
        pos = np.round(rng.uniform(-0.5, 1., (m, 3)), 12)
        p['atoms'].append(([p['z'][i % n] for i in range(m)], pos))
        return sum([['- symbol: %s # %d' % (name(p['sym'][i % n]), i + 1), '  coordinates: ' + ylist(x), '  mass: 15.9'] for i, x in enumerate(pos)], [])

    name = lambda x: '"%s"' % x if x == 'No' else '%-2s' % x
    exact = lambda m: ['lattice:'] + ['- [ ' + ', '.join('%.12f' % x for x in r) + ' ] # a' for r in m]
    out = ['mesh: [ %d, %d, %d ]' % tuple(c['mesh']), 'nqpoint: %d' % c['nq'], 'reciprocal_lattice:', '- [ 0.1, 0.0, 0.0 ]', '- [ 0.0, 0.1, 0.0 ]',
           '- [ 0.0, 0.0, 0.1 ]', 'natom:   %d' % n] + exact(unit) + ['points:'] + points(n) + ['', 'phonon:']
    for q in range(c['nq']):
        out += ['- q-position: [ %12.7f, %12.7f, %12.7f ]' % tuple(x / 8. for x in c['q'][q]), '  weight: %d' % c['weights'][q], '  band:']
        for j in range(3 * n):
            out += ['  - # %d' % (j + 1), '    frequency: %16.10f' % p['printed'][q, j, v]]
        out.append('')
    disp = ['phonopy:', '  version: 2.1.3', 'physical_unit:', '  length: angstrom', 'supercell_matrix:']
    disp += ['- [ %d, %d, %d ]' % tuple(r) for r in p['dim']]
    disp += ['unit_cell:', '  points:', '  - symbol: H', 'supercell:'] + ['  ' + l for l in exact(sup)] + ['  points:'] + ['  ' + l for l in points(n * p['k'])]
    xml = ['<?xml version="1.0" encoding="ISO-8859-1"?>', '<modeling>']
    for i in range(c['steps']):
        e = p['energies'][v] if i == c['steps'] - 1 else 11.5 + i
        xml += [' <calculation>', '  <scstep>', '   <energy>', '    <i name="e_fr_energy">  -1.0 </i>', '    <i name="e_wo_entrp">  -2.0 </i>', '   </energy>',
                '  </scstep>', '  <energy>', '   <i name="e_fr_energy">  -33.25 </i>', '   <i name="e_wo_entrp">  %20.12E </i>' % e,
                '   <i name="e_0_energy">  -44.25 </i>', '  </energy>', ' </calculation>']
    xml += ['</modeling>']
    return out, disp, (xml if c['xml'] else None)


def put(path, lines):
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')


def exact_cells(c, p):
    """phonopy prints fewer digits of the cells"""
    if c['source'] == 'phonopy':
        p['cells'] = [(np.round(u, 12), np.round(s, 12)) for u, s in p['cells']]
    return p


def write_run(c, folder, tag='r'):
    """list of the main files"""
    p = exact_cells(c, physics(c))
    tag += c.get('name', '')
    if c['source'] == 'qha':
        path = os.path.join(folder, tag + '.out')
        put(path, qha_text(c, p))
        return [path], p
    files = []
    for v in range(c['nv']):
        if c['source'] == 'phonopy':
            a, b, x = phonopy_texts(c, p, v)
            path = os.path.join(folder, '%s%d.yaml' % (tag, v))
            put(path, a)
            put(os.path.join(folder, '%s%d_disp.yaml' % (tag, v)), b)
            if x:
                put(os.path.join(folder, '%s%d.xml' % (tag, v)), x)
        else:
            path = os.path.join(folder, '%s%d.out' % (tag, v))
            put(path, crystal_text(c, p, v))
        files.append(path)
    return files, p


def target(c, files, folder, tag='list'):
    """argument of the reading, and whether it is a list"""
    if len(files) == 1 and (c['source'] == 'qha' or c['seed'] % 2):
        return files[0], False
    path = os.path.join(folder, tag + '.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(files) + ('\n' if c['seed'] % 3 else ''))
    return path, True


def check_file(path, c, title, p=None):
    from quantas.IO.qha_reader import QHAInputFileReader
    r = QHAInputFileReader(path)
    check(r.completed, 'the generated file is refused: {}', r.error)
    x = expected(c, p)
    check(int(r.natoms) == x['natom'], 'natom {} instead of {}', r.natoms, x['natom'])
    close(r.data['supercell'], x['dim'], what='supercell')
    check(int(r.qpoints) == len(x['weights']), 'number of q-points {} instead of {}', r.qpoints, len(x['weights']))
    close(r.volume, x['vols'], rtol=1e-11, atol=5.1e-9, what='volume ({})'.format(c['source']))
    close(r.energy, x['energies'], rtol=1e-12, what='energy ({})'.format(c['source']))
    close(r.weights, x['weights'], rtol=1e-9, what='weights')
    close([q['q-position'] for q in r.data['phonon']], x['q'], atol=5.1e-8, what='q-points')
    close(r.frequencies, x['f'], rtol=1e-12, atol=5.1e-11, what='frequencies ({})'.format(c['source']))
    check(r.jobname == title.strip(), 'title {!r} read back as {!r}', title, r.jobname)


class answering(object):
    """answer the question about the title"""
    def __init__(self, title):
        self.title = title

    def __enter__(self):
        self.old = builtins.input
        builtins.input = lambda *a: self.title

    def __exit__(self, *a):
        builtins.input = self.old


def cli_generate(c, path, is_list, out, ref, title):
    from quantas.cmdline.commands.cmd_quantas import cli
    args = ['inpgen', 'ha', path, '-i', FLAG[c['source']]] + (['-o', out] if out else []) + (['-l'] if is_list else []) + (['-r', str(ref)] if ref is not None else [])
    r = CliRunner().invoke(cli, args, input=title + '\n')
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        fail('inpgen stopped with {!r}: {}', r.exception, r.output[-300:])
    return r


def listing(folder):
    out = {}
    for f in sorted(os.listdir(folder)):
        with open(os.path.join(folder, f), 'rb') as g:
            out[f] = g.read()
    return out


# --- single generations -----------------------------------------------------------------------------------------------------------
@st.composite
def single_case(draw):
    c = draw(run())
    c['cli'] = draw(st.booleans())
    c['named'] = draw(st.sampled_from([True, True, False]))
    c['ref'] = draw(st.integers(0, c['nv'] - 1))
    return c


def single_body(c, ctx):
    from quantas.IO.qha_writer import QHAInputCreator
    files, p = write_run(c, ctx.scratch)
    path, is_list = target(c, files, ctx.scratch)
    before = listing(ctx.scratch)
    ref = c['ref'] if c['source'] != 'qha' else 0
    new = os.path.join(ctx.scratch, 'new.yaml')
    if c['cli']:
        cli_generate(c, path, is_list, os.path.join(ctx.scratch, 'new') if c['named'] else None, ref, c['title'])
        if not c['named']:
            fresh = sorted(set(os.listdir(ctx.scratch)) - set(before))
            check(len(fresh) == 1 and fresh[0].endswith('.yaml'), 'files generated: {}', fresh)
            os.rename(os.path.join(ctx.scratch, fresh[0]), new)
        check(os.path.isfile(new), 'no file was generated')
    else:
        g = QHAInputCreator(FLAG[c['source']])
        ok, err = g.read(path, is_list, ref)
        check(ok is True, 'a valid set is refused: {}', err)
        with answering(c['title']):
            g.write(new, ref)
    check_file(new, c, c['title'], p)
    after = listing(ctx.scratch)
    after.pop('new.yaml')
    check(after == before, 'other files were written or changed')
    ctx.note(c['source'])
    ctx.interesting(c['nv'] > 1 or p['k'] > 1 or c['nq'] > 1)


# --- sequences ------------------------------------------------------------------------------------------------------------------
@st.composite
def sequence_case(draw):
    runs = [draw(run(sources=draw(st.sampled_from([SOURCES, ['crystal', 'supercell', 'scel', 'interp'], ['phonopy'], ['qha']]))))
            for i in range(draw(st.integers(2, 3)))]
    for r in runs:
        r['natom'] = min(r['natom'], 2)
    ops = draw(st.lists(st.tuples(st.sampled_from(['read', 'read', 'write', 'bad', 'reader']), st.integers(0, len(runs) - 1),
                                  st.sampled_from(['shared', 'new'])).map(list), min_size=2, max_size=7))
    return {'runs': runs, 'ops': ops}


def sequence_body(c, ctx):
    """a generator writes what it read last, whatever the others did"""
    from quantas.IO.qha_writer import QHAInputCreator
    sets = []
    for i, r in enumerate(c['runs']):
        files, p = write_run(r, ctx.scratch, 'r%d_' % i)
        sets.append((target(r, files, ctx.scratch, 'list%d' % i), files, p))
    bad = os.path.join(ctx.scratch, 'bad.out')
    put(bad, ['nothing useful', ''])
    put(os.path.join(ctx.scratch, 'bad_disp.yaml'), ['nothing: useful', ''])
    shared, state, made, readers = {}, [], [], []
    for n, (op, i, how) in enumerate(c['ops']):
        r = c['runs'][i]
        flag = FLAG[r['source']]
        (path, is_list), files, p = sets[i]
        if op in ('read', 'bad'):
            g = shared.setdefault(flag, QHAInputCreator(flag)) if how == 'shared' else QHAInputCreator(flag)
            state = [s for s in state if s[0] is not g]
            if op == 'read':
                ok, err = g.read(path, is_list)
                check(ok is True, 'a valid set is refused: {}', err)
                state.append((g, i))
            else:
                ok, err = g.read(bad, False)
                check(ok is False and bool(err), 'a useless file is accepted')
        elif op == 'reader':
            reader = g_reader(flag)(files[0])
            check(reader.completed, 'a valid output is refused: {}', reader.error)
            readers.append((reader, i, snapshot(reader)))
        elif state:
            g, j = state[i % len(state)]
            new = os.path.join(ctx.scratch, 'w%d.yaml' % n)
            with answering('title %d' % n):
                g.write(new)
            made.append((new, j, 'title %d' % n))
        for reader, j, snap in readers:
            check(snapshot(reader) == snap, 'data read earlier from {} have changed', c['runs'][j]['source'])
    for n, (g, j) in enumerate(state):
        new = os.path.join(ctx.scratch, 'e%d.yaml' % n)
        with answering('end'):
            g.write(new)
        made.append((new, j, 'end'))
    for new, j, title in made:
        check_file(new, c['runs'][j], title, sets[j][2])
    ctx.interesting(len(made) > 1)


def g_reader(flag):
    from quantas.IO.qha_writer import QHAInputCreator
    return QHAInputCreator.interface_filter[flag]


def snapshot(reader):
    d = [np.array(reader.volume).tolist(), np.array(reader.energy).tolist(), np.array(reader.dim).tolist(), int(reader.natom), int(reader.qpoints)]
    for i in range(reader.qpoints):
        d += [np.array(reader.qcoords[i]).tolist(), float(reader.weights[i]), np.array(reader.phonons[i]).tolist()]
    return d


# --- damaged sets -----------------------------------------------------------------------------------------------------------------
COMMON = ['empty', 'cut', 'stars', 'nan', 'word', 'other', 'missing', 'folder', 'binary', 'ref', 'badref', 'listref']
EXTRA = {'crystal': ['nomode', 'energy', 'lattice', 'header'], 'supercell': ['nomode', 'energy', 'lattice', 'header', 'matrix'],
         'scel': ['nomode', 'energy', 'lattice', 'header', 'matrix', 'noq', 'weight'], 'interp': ['nomode', 'energy', 'lattice', 'header', 'noq', 'weight'],
         'qha': ['few', 'restart', 'aslist', 'header', 'nomode', 'energy'], 'phonopy': ['nodisp', 'noq', 'nomode', 'matrix', 'xml', 'notyaml', 'symbol', 'lattice']}
SETS = ['natom', 'mesh', 'weights', 'dim', 'coords', 'emptylist']


@st.composite
def damaged_case(draw):
    c = draw(run())
    kinds = COMMON + 3 * EXTRA[c['source']]
    if c['source'] != 'qha':
        kinds += 2 * SETS
    c['damage'] = draw(st.sampled_from(kinds))
    c['which'] = draw(st.integers(0, c['nv'] - 1))
    c['at'] = draw(st.floats(0., 0.999))
    c['cli'] = draw(st.booleans())
    if c['damage'] in ('natom', 'mesh', 'weights', 'dim', 'coords') and c['nv'] == 1:
        c['nv'] = 2
        c['order'] = [0, 1]
    return c


def last_needed(lines, c):
    """index after the last line holding needed numbers"""
    src = c['source']
    if src == 'qha':
        return [i for i, l in enumerate(lines) if l.startswith(' FREQUENCY #')][-1] + 2 + c['nv']
    if src == 'phonopy':
        return [i for i, l in enumerate(lines) if 'frequency:' in l][-1]
    return [i for i, l in enumerate(lines) if '(Fu )' in l][-1]


def number_lines(lines, c):
    """(line, token) of numbers that are used"""
    src, out = c['source'], []
    for i, l in enumerate(lines):
        w = l.split()
        if src == 'phonopy':
            if w[:1] == ['frequency:']:
                out.append((i, 1))
            elif w[:1] == ['-'] and len(w) > 3 and w[1] == 'q-position:':
                out.append((i, 3))
        elif src == 'qha':
            if l.startswith(' FREQUENCY #'):
                out += [(i + 3 + k, 1) for k in range(c['nv'])]
            elif l.startswith(' SORTING'):
                out += [(i + 4 + k, t) for k in range(c['nv']) for t in (0, 1)]
        else:
            if '(Fu )' in l:
                out.append((i, len(l[:l.index('(Fu )')].split()) - 2))
            elif 'CENTRAL POINT' in l:
                out.append((i, 2))
    return out


def damaged_body(c, ctx):
    from quantas.IO.qha_writer import QHAInputCreator
    kind, src, folder = c['damage'], c['source'], ctx.scratch
    files, p = write_run(c, folder)
    which = c['which'] % len(files)
    bad = files[which]
    lines = open(bad, encoding='utf-8').read().split('\n')
    flag, ref = FLAG[src], 0
    path, is_list = target(c, files, folder)
    if kind in ('emptylist', 'missing', 'folder', 'listref') and src != 'qha' and not is_list:
        path, is_list = os.path.join(folder, 'list.txt'), True
        put(path, files)
    rng = np.random.RandomState(c['seed'])

    def pick(seq):
        return seq[int(c['at'] * len(seq))]

    if kind == 'empty':
        lines = ['']
    elif kind == 'cut':
        lines = lines[:int(c['at'] * last_needed(lines, c))]
    elif kind in ('stars', 'nan', 'word'):
        i, t = pick(number_lines(lines, c))
        w = lines[i].split()
        w[t] = {'stars': '*********', 'nan': 'NaN', 'word': 'x1.5'}[kind]
        if kind == 'nan' and src == 'phonopy':
            w[t] = '.nan'
        if src == 'phonopy':
            if w[t].startswith('*') and w[0] == '-':
                w[t] = '"****",'
            elif w[0] == '-':
                w[t] += ','
        head = lines[i][:len(lines[i]) - len(lines[i].lstrip())]
        lines[i] = head + ' '.join(w)
    elif kind == 'other':
        o = dict(c, source='phonopy' if src != 'phonopy' else 'crystal', nq=1, dim=c['dim'] or [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        if src == 'qha':
            o = dict(o, source='crystal', dim=None)
        if o['source'] == 'crystal':
            o['dim'] = None
        o['q'], o['weights'] = c['q'][:1], [1]
        q = exact_cells(o, physics(o))
        lines = phonopy_texts(o, q, 0)[0] if o['source'] == 'phonopy' else crystal_text(o, q, 0)
    elif kind == 'header':
        marks = {'qha': [' FREQUENCY #', ' SORTING VOLUMES', ' FINAL OPTIMIZED', 'QUASI-HARMONIC'],
                 }.get(src, ['CENTRAL POINT', 'EIGENVALUES (EIGV)', 'GEOMETRY FOR WAVE', 'MODES         EIGV', 'DIRECT LATTICE'])
        m = pick(marks)
        i = [k for k, l in enumerate(lines) if m in l and 'FITTED' not in l][-1]
        del lines[i]
    elif kind == 'nomode':
        i = pick([k for k, l in enumerate(lines) if {'phonopy': 'frequency:', 'qha': ' FREQUENCY #'}.get(src, '(Fu )') in l and 'FITTED' not in l])
        if src == 'phonopy':
            del lines[i - 1:i + 1]
        elif src == 'qha':
            del lines[i + 3]
        else:
            del lines[i]
    elif kind == 'energy':
        i = [k for k, l in enumerate(lines) if 'CENTRAL POINT' in l or ' SORTING VOLUMES' in l][0]
        if src == 'qha':
            lines[i + 4] = '   ' + lines[i + 4].split()[0] + '  ************'
        else:
            del lines[i]
    elif kind == 'lattice':
        if src == 'phonopy':
            i = lines.index('lattice:')
            lines[i + 1] = '- [ 0.0, 0.0, 0.0 ]'
        else:
            i = [k for k, l in enumerate(lines) if 'DIRECT LATTICE' in l][0]
            lines[i + 2] = pick(['  0.0 0.0 0.0', '  ******** 1.0 2.0', '  1.0 2.0'])
    elif kind == 'matrix':
        if src == 'phonopy':
            d = os.path.splitext(bad)[0] + '_disp.yaml'
            dl = open(d).read().split('\n')
            i = dl.index('supercell_matrix:')
            put(d, dl[:i] + pick([['supercell_matrix: [ 1, 2 ]'], ['supercell_matrix: abc'], []]) + dl[i + 4:])
        else:
            i = [k for k, l in enumerate(lines) if 'EXPANSION MATRIX' in l][0]
            lines[i + 1] = pick(['   E1  *********  0.000 0.000', '   E1  1.000 0.000', ''])
    elif kind == 'noq':
        if src == 'phonopy':
            lines = [l if not l.startswith('nqpoint') else 'nqpoint: %d' % (c['nq'] + 1) for l in lines]
        else:
            i = [k for k, l in enumerate(lines) if 'MODES         EIGV' in l][-1]
            del lines[i:]
    elif kind == 'weight':
        # the printed rows of the mesh in use
        i = [k for k, l in enumerate(lines) if 'K       WEIGHT       COORD' in l][-1] + 1
        w = lines[i].split()
        w[2] = '****'
        lines[i] = ' '.join(w)
    elif kind == 'few':
        i = [k for k, l in enumerate(lines) if ' SORTING VOLUMES' in l][0]
        lines[i + 4 + int(c['at'] * 4):i + 4 + c['nv']] = []
    elif kind == 'restart':
        lines.insert(int(c['at'] * len(lines)), ' READING DATA FROM RESTART UNIT')
    elif kind == 'aslist':
        path, is_list = os.path.join(folder, 'list.txt'), True
        put(path, files)
    elif kind == 'nodisp':
        os.remove(os.path.splitext(bad)[0] + '_disp.yaml')
    elif kind == 'xml':
        put(os.path.splitext(bad)[0] + '.xml', pick([['<modeling>', ' <calculation><energy><i name="e_wo_entrp">-1.0</i>'],
                                                     ['not xml'], ['<modeling><calculation><energy><i name="e_wo_entrp">*****</i></energy></calculation></modeling>']]))
    elif kind == 'notyaml':
        lines.insert(int(c['at'] * last_needed(lines, c)), '\t: ][ {')
    elif kind == 'symbol':
        i = pick([k for k, l in enumerate(lines) if l.startswith('- symbol')])
        lines[i] = '- symbol: Xq'
    elif kind in ('natom', 'mesh', 'weights', 'dim', 'coords'):
        o = dict(c)
        which = max(1, which)
        bad = files[which]
        if kind == 'natom':
            o['natom'] = c['natom'] % 4 + 1
        elif kind == 'dim':
            if src == 'crystal':
                return
            o['dim'] = [[1, 0, 0], [0, 1, 0], [0, 0, 4]]
        else:
            if src not in ('scel', 'interp', 'phonopy'):
                return
            if kind == 'mesh':
                o['nq'] = c['nq'] + 1
                o['q'] = c['q'] + [[3, 3, 3]]
                o['weights'] = c['weights'] + [1]
            elif kind == 'weights':
                o['weights'] = [w + 1 for w in c['weights']]
            else:
                o['q'] = [[q[0] + 1] + q[1:] for q in c['q']]
        q = exact_cells(o, physics(o))
        if src == 'phonopy':
            lines, disp, xml = phonopy_texts(o, q, which)
            put(os.path.splitext(bad)[0] + '_disp.yaml', disp)
        else:
            lines = crystal_text(o, q, which)
    elif kind == 'emptylist':
        open(path, 'w').close()
    elif kind == 'missing':
        os.remove(bad)
    elif kind == 'folder':
        os.remove(bad)
        os.mkdir(bad)
    elif kind in ('ref', 'badref', 'listref'):
        if src == 'qha':
            return
        ref = {'ref': len(files), 'badref': -1, 'listref': 1000}[kind]
    if kind == 'binary':
        with open(bad, 'wb') as f:
            f.write(rng.bytes(3000) + b'\xff\xfe\x80')
    elif os.path.isfile(bad):
        put(bad, lines)
    before = sorted(os.listdir(folder))
    err = None
    if kind not in ('binary', 'ref', 'badref', 'listref'):
        g = QHAInputCreator(flag)
        ok, err = g.read(path, is_list, ref)
        check(ok is False, 'a damaged set ({} {}) is accepted', src, kind)
        check(isinstance(err, str) and err.strip(), 'no reason is given: {!r}', err)
    if c['cli'] or err is None:
        r = cli_generate(c, path, is_list, os.path.join(folder, 'new'), ref, 'damaged')
        check(sorted(os.listdir(folder)) == before, 'files were written: {}', sorted(set(os.listdir(folder)) - set(before)))
        text = r.output.lower()
        check(('error' in text or '____' in text) or r.exit_code != 0, 'nothing is reported: {}', r.output[-300:])
        if err is not None and not (kind in ('missing', 'folder') and not is_list):
            check(err.split('\n')[0] in r.output, 'the reason {!r} is not shown', err)
    ctx.note(kind)
    ctx.note(src)
    ctx.interesting(True)


SUBS = [Sub('single', single_case, single_body, quick=180, thorough=2500, shards=(2, 8)),
        Sub('sequences', sequence_case, sequence_body, quick=90, thorough=1000, shards=(2, 8)),
        Sub('damaged', damaged_case, damaged_body, quick=250, thorough=3000, shards=(2, 8))]
