"""P17: polar sections."""
import os
import numpy as np
import h5py
from hypothesis import strategies as st
from vlib import elastic as el
from vlib.core import Sub, check, close
from props.p13 import analyse

RULE = ('Generated: positive-definite tensors of every crystal system, sections of 2 to 40 points and (fewer) complete runs '
        'with the stored 360-point sections. Oracle: the property in each direction of the plane, transverse extremes solved '
        'exactly. Non-trivial: anisotropic.')
ASSUMPTIONS = ['angles of (xy) from x towards y, of (xz) and (yz) from z towards x and y',
               'transverse extremes are converged to 1e-3 of their value']

PLANES = {'xy': lambda a: (np.full_like(a, np.pi / 2), a), 'xz': lambda a: (a, np.zeros_like(a)),
          'yz': lambda a: (a, np.full_like(a, np.pi / 2))}


@st.composite
def case(draw):
    c = draw(el.tensors(spread=1., neg=True))
    c['nrad'] = draw(st.integers(2, 14))
    c['rho'] = draw(st.one_of(st.just(0.), st.floats(500., 12000.)))
    return c


def compare(C, rho, polar, nrad, what):
    C4, S4 = el.full_c(C), el.compliance(C)
    check(sorted(polar) == ['xy', 'xz', 'yz'], '{}planes {}', what, sorted(polar))
    for p in PLANES:
        d = polar[p]
        names = ['E', 'G', 'LC', 'Nu'] + (['waves'] if rho > 0. else [])
        check(sorted(d) == sorted(names), '{}({}): properties {}', what, p, sorted(d))
        a = np.linspace(0., 2. * np.pi, nrad)
        th, ph = PLANES[p](a)
        n = np.column_stack((np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)))
        cols = {'E': 2, 'LC': 3, 'G': 3, 'Nu': 4, 'waves': 4}
        for k in names:
            t = np.asarray(d[k])
            check(t.shape == (nrad, cols[k]), '{}({}) {} has shape {}', what, p, k, t.shape)
            close(t[:, 0], np.degrees(a), atol=1e-9, what='{}({}) {} angles'.format(what, p, k))
            close(t[-1, 1:], t[0, 1:], rtol=1e-3, atol=1e-4 * np.abs(t[:, 1:]).max(),
                  what='{}({}) {} at 360 and 0 degrees'.format(what, p, k))
        E, L = el.young(S4, n), el.lincomp(S4, n)
        (g0, g1), (p0, p1) = el.envelope(S4, n)
        w = '{}({}) '.format(what, p)
        close(d['E'][:, 1], E, rtol=1e-7, what=w + "Young's modulus")
        la = 1e-9 * np.abs(S4).max() * 1000.
        close(d['LC'][:, 1], np.maximum(L, 0.), rtol=1e-7, atol=la, what=w + 'positive compressibility')
        close(d['LC'][:, 2], np.maximum(-L, 0.), rtol=1e-7, atol=la, what=w + 'negative compressibility')
        close(d['G'][:, 1], g0, rtol=1e-3, what=w + 'minimum shear modulus')
        close(d['G'][:, 2], g1, rtol=1e-3, what=w + 'maximum shear modulus')
        na = 1e-3 * (1. + np.abs(p1) + np.abs(p0))
        close(d['Nu'][:, 1], np.minimum(p0, 0.), atol=na, what=w + "negative Poisson's ratio")
        close(d['Nu'][:, 2], np.maximum(p0, 0.), atol=na, what=w + "positive minimum of Poisson's ratio")
        close(d['Nu'][:, 3], p1, atol=na, what=w + "maximum of Poisson's ratio")
        if rho > 0.:
            v = el.waves(C4, n, rho)
            close(d['waves'][:, 1:], v, rtol=1e-6, atol=1e-6 * v.max(), what=w + 'wave velocities')


def body(c, ctx):
    from quantas.soec.soec import SOECCalculator
    C = el.make(c)
    if not el.stable(C, 2e-3):
        ctx.note('unstable, left out')
        return
    path = os.path.join(ctx.scratch, 's.dat')
    with open(path, 'w') as f:
        f.write(el.soec_text(C, rho=c['rho'] or None))
    calc = SOECCalculator({'polar': True, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa',
                           'plotting': False, 'outfig': None, 'dpi': 80})
    err = calc.read_input(path)
    check(err is None, 'input refused: {}', err)
    calc.calculate_polar_properties(nrad=c['nrad'])
    compare(C, c['rho'], calc.results['polar'], c['nrad'], '')
    ctx.note(c['system'])
    ctx.interesting(c['system'] != 'isotropic')


@st.composite
def run_case(draw):
    # orthotropic crystals: the analysis of the others takes minutes
    c = draw(el.tensors(systems=['orthorhombic'], spread=0.8, neg=True))
    c['rho'] = draw(st.one_of(st.just(0.), st.floats(500., 12000.), st.floats(500., 12000.)))
    return c


def run_body(c, ctx):
    C = el.make(c)
    if not el.stable(C, 2e-3):
        ctx.note('unstable, left out')
        return
    log, r, h5 = analyse(C, c['rho'] or None, ctx.scratch, args=['--polar', '-q'])
    polar = {p: {} for p in PLANES}
    unit = {'E': 'GPa', 'G': 'GPa', 'LC': 'TPa^-1', 'waves': 'km s^-1', 'Nu': ''}
    with h5py.File(h5, 'r') as f:
        for k in f.keys():
            if k.startswith('polar_'):
                _, v, p = k.split('_')
                polar[p][v] = f[k][:]
                check(f[k].attrs['unit'] == unit[v], 'unit of {} stored as {!r}', k, f[k].attrs['unit'])
        close(f['stiffness'][:], C, rtol=1e-14, what='stored stiffness')
        close(f['averages'][:], el.averages(C), rtol=1e-8, what='stored averages')
    compare(C, c['rho'], polar, 360, 'stored ')
    ctx.interesting(True)


SUBS = [Sub('sections', case, body, quick=40, thorough=250, shards=(4, 6), hang=300),
        Sub('run', run_case, run_body, quick=2, thorough=6, shards=(3, 6), hang=600)]
