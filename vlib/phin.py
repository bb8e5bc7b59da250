"""Writing of phonon (HA/QHA) input files from a physical description.

Canonical units: volumes in A^3, energies in hartree, frequencies in cm^-1,
temperatures in K, pressures in GPa.
"""
import numpy as np

# CODATA 2018
HARTREE_J = 4.3597447222071e-18
EV_J = 1.602176634e-19
RY_J = HARTREE_J / 2
NA = 6.02214076e23
C_CM = 2.99792458e10
BOHR_A = 0.529177210903

#: energy unit -> value of one hartree in that unit
EUNIT = {'Ha': 1.0, 'Ry': HARTREE_J / RY_J, 'eV': HARTREE_J / EV_J}
#: value of one cm^-1 in that unit
FUNIT = {'cm^-1': 1.0, 'THz': C_CM * 1e-12, 'Hz': C_CM}
#: value of one A in that unit
LUNIT = {'A': 1.0, 'bohr': 1.0 / BOHR_A}
#: value of one GPa in that unit
PUNIT = {'GPa': 1.0, 'kbar': 10.0}
#: kJ/mol per unit of energy
KJMOL = {k: HARTREE_J / v * NA * 1e-3 for k, v in EUNIT.items()}


def GPA(eunit, lunit):
    """GPa per eunit/lunit^3"""
    e = HARTREE_J / EUNIT[eunit]
    l = 1e-10 / LUNIT[lunit]
    return e / l ** 3 * 1e-9


def num(x, style=0):
    """A YAML real number holding exactly x."""
    x = float(x)
    if style == 1:
        s = '%.17e' % x
        return s
    if style == 2:
        s = '%.17E' % x
        return s
    s = repr(x)
    if 'e' in s and '.' not in s:
        m, e = s.split('e')
        s = m + '.0e' + e
    return s


def seq(vals, style=0):
    return '[ ' + ', '.join(num(v, style) for v in vals) + ' ]'


def yaml_text(vols, energies, bands, weights, job='test', natom=None, supercell=None, qpos=None, style=0,
              wint=False):
    """bands: (nq, nmodes, nv) already in file units."""
    bands = np.asarray(bands, dtype=float)
    nq, nm, nv = bands.shape
    out = []
    if job is not None:
        out.append('job: ' + job)
    out.append('natom: {}'.format(nm // 3 if natom is None else natom))
    out.append('supercell:')
    for row in (supercell or [[1, 0, 0], [0, 1, 0], [0, 0, 1]]):
        out.append('- [ {}, {}, {} ]'.format(*row))
    out.append('qpoints: {}'.format(nq))
    out.append('volume: ' + seq(vols, style))
    out.append('energy: ' + seq(energies, style))
    out.append('phonon:')
    for i in range(nq):
        q = qpos[i] if qpos else [0.1 * i, 0., 0.]
        out.append('- q-position: ' + seq(q))
        w = weights[i]
        out.append('  weight: {}'.format(int(w) if float(w).is_integer() else num(w)))
        out.append('  band:')
        for j in range(nm):
            out.append('  - # {}'.format(j + 1))
            out.append('    frequency: ' + seq(bands[i, j], style))
    return '\n'.join(out) + '\n'
