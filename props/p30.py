"""P30: structures and chemical elements read from ab initio outputs."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, check, close, fail
from props import p22

RULE = ('Generated: the outputs of P22 (CRYSTAL frequencies in a cell or supercell, dispersions, quasi-harmonic runs, phonopy results) with '
        'atoms of any element at any fractional coordinates, different in the cell and the supercell, read by several readers one '
        'after the other and compared at the end; and lists of elements. Oracle: the printed atoms and vectors, and the periodic '
        'table. Non-trivial: a supercell, or several outputs, or atoms of different elements.')
ASSUMPTIONS = ['the tuples of a reader keep the order given by the present code (number of atoms first; phonopy: lattice, positions, numbers)',
               'cells of a quasi-harmonic output are provided in the order of increasing volume']

TABLE = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In '
         'Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am '
         'Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()
assert len(TABLE) == 118


@st.composite
def one(draw):
    c = draw(p22.run())
    c['natom'] = min(c['natom'], 9)
    c['elements'] = [[z, TABLE[z - 1]] for z in draw(st.lists(st.integers(1, 118), min_size=c['natom'], max_size=c['natom']))]
    return c


@st.composite
def structure_case(draw):
    return {'runs': [draw(one()) for _ in range(draw(st.integers(1, 2)))]}


def cell(got, natom, z, pos, lattice, what, rtol=1e-11):
    """a structure against what was printed"""
    n, gz, gp, gl = got
    check(n is None or int(n) == natom, '{}: {} atoms instead of {}', what, n, natom)
    gz = np.asarray(gz)
    check(gz.shape == (natom,) and np.array_equal(gz, z), '{}: elements {} instead of {}', what, gz.tolist(), list(z))
    check(np.shape(gp) == (natom, 3), '{}: coordinates of shape {}', what, np.shape(gp))
    close(gp, pos, atol=1e-12, what=what + ': fractional coordinates')
    check(np.shape(gl) == (3, 3), '{}: lattice of shape {}', what, np.shape(gl))
    close(gl, lattice, rtol=0., atol=rtol * np.abs(lattice).max(), what=what + ': lattice vectors')


def structure_body(case, ctx):
    from quantas.interfaces.crystal import CrystalPhononReader, CrystalQHAReader
    from quantas.interfaces.phonopy import PhonopyReader
    todo = []
    for i, c in enumerate(case['runs']):
        files, p = p22.write_run(c, ctx.scratch, 'r%d_' % i)
        kind = {'qha': CrystalQHAReader, 'phonopy': PhonopyReader}.get(c['source'], CrystalPhononReader)
        for f in files:
            todo.append((c, p, files.index(f), kind(f)))
    todo.sort(key=lambda t: (t[2] * 7 + t[0]['seed']) % 5)
    for c, p, v, rd in todo:
        src, what = c['source'], '%s, volume %d' % (c['source'], v + 1)
        check(rd.completed and not rd.error, '{}: refused: {!r}', what, rd.error)
        if src == 'qha':
            order = np.argsort([abs(np.linalg.det(s)) for _, s in p['cells']])
            cells = rd.results['unitcell']
            check(len(cells) == c['nv'], '{}: {} cells', what, len(cells))
            for j, k in enumerate(order):
                x = cells[j]
                cell((x['natom'], x['numbers'], x['positions'], x['lattice']), c['natom'] * p['k'], p['atoms'][k][0], p['atoms'][k][1],
                     p['cells'][k][1], '{} {}'.format(what, j))
            close(rd.dim, p['dim'], what=what + ': supercell matrix')
            check(int(rd.natom) == c['natom'] and int(rd.kpoints) == p['k'], '{}: {} atoms, {} cells', what, rd.natom, rd.kpoints)
            continue
        unit, sup = p['cells'][v]
        if src == 'crystal':
            z, pos = p['atoms'][v]
            cell(rd.unitcell, c['natom'], z, pos, unit, what)
            cell(rd.supercell, c['natom'], z, pos, unit, what)
        else:
            (uz, up), (sz, sp) = p['atoms'][2 * v:2 * v + 2]
            if src == 'phonopy':
                n, l, x, z = rd.unitcell
                cell((n, z, x, l), c['natom'], uz, up, unit, what)
                l, x, z = rd.supercell
                cell((None, z, x, l), c['natom'] * p['k'], sz, sp, sup, what + ' supercell')
            else:
                cell(rd.unitcell, c['natom'], uz, up, np.linalg.inv(p['dim']) @ sup, what, 1e-10)
                cell(rd.supercell, c['natom'] * p['k'], sz, sp, sup, what + ' supercell')
            close(rd.dim, p['dim'], what=what + ': supercell matrix')
            check(int(rd.kpoints) == p['k'], '{}: {} cells in the supercell instead of {}', what, rd.kpoints, p['k'])
        want = sup if src == 'supercell' else unit
        close(rd.lattice, want, rtol=0., atol=1e-10 * np.abs(want).max(), what=what + ': lattice in use')
        close(rd.volume, abs(np.linalg.det(want)), rtol=1e-9, what=what + ': volume')
        check(int(rd.natom) == p['natom'] and int(rd.nphonon) == 3 * p['natom'], '{}: {} atoms and {} modes', what, rd.natom, rd.nphonon)
    for c in case['runs']:
        ctx.note(c['source'])
    ctx.interesting(len(todo) > 1 or any(p['k'] > 1 or len(set(p['z'])) > 1 for _, p, _, _ in todo))


def element_body(case, ctx):
    from quantas.utils.chemistry.symbols import number2symbol, symbol2number
    for z in case:
        check(number2symbol(z) == TABLE[z - 1], 'element {} is {!r} instead of {}', z, number2symbol(z), TABLE[z - 1])
        check(symbol2number(TABLE[z - 1]) == z, '{} has number {} instead of {}', TABLE[z - 1], symbol2number(TABLE[z - 1]), z)
    ctx.interesting(len(set(case)) > 1)


SUBS = [Sub('structures', structure_case, structure_body, quick=120, thorough=1500, shards=(2, 8)),
        Sub('elements', lambda: st.lists(st.integers(1, 118), min_size=1, max_size=118), element_body, quick=60, thorough=600, shards=(1, 2))]
