"""P14: phase velocities."""
import numpy as np
from hypothesis import strategies as st
from vlib import elastic as el
from vlib.core import Sub, check, close
from props.p12 import angle, polar_of
from props.p13 import analyse

RULE = ('Generated: positive-definite tensors of every crystal system, densities, directions (random, axes, diagonals), '
        'rotations and scale factors; reports of complete runs with and without density. Oracle: eigenvalues of the '
        'Christoffel tensor contracted from the 3x3x3x3 stiffness. Non-trivial: anisotropic.')
ASSUMPTIONS = ['stiffness in GPa, density in kg/m3, velocities in km/s']


@st.composite
def case(draw):
    c = draw(el.tensors(soft=True, neg=True))
    c['rho'] = draw(st.one_of(st.floats(100., 25000.), st.sampled_from([1000., 3513., 1.])))
    c['dirs'] = [[draw(angle(-4., 7.)), draw(angle(-7., 7.))] for _ in range(draw(st.integers(1, 6)))]
    c['rot'] = draw(st.integers(0, 2 ** 31 - 1))
    c['factor'] = draw(st.floats(0.1, 10.))
    return c


def body(c, ctx):
    from quantas.soec.utils.soec_obj import SOEC, SOECOrtho
    C = el.make(c)
    if not el.stable(C):
        ctx.note('unstable, left out')
        return
    C4 = el.full_c(C)
    rho = c['rho']
    s = SOEC(C, rho)
    objs = [s]
    if c['system'] in ('orthorhombic', 'tetragonal_high', 'cubic'):
        objs.append(SOECOrtho(s))
    R = el.random_rotation(np.random.RandomState(c['rot']))
    rot = SOEC(el.rotate(C, R), rho)
    scaled = SOEC(C * c['factor'], rho)
    denser = SOEC(C, rho * c['factor'])
    for th, ph in c['dirs']:
        n = el.unit(th, ph)
        want = el.waves(C4, n, rho)
        tol = 1e-7 * want[2]
        for o in objs:
            got = np.array(o.phase_velocity([th, ph]))
            close(got, want, rtol=1e-8, atol=tol, what='phase velocities at {}'.format([th, ph]))
            check(got[0] <= got[1] <= got[2], 'velocities not ascending: {}', got)
            close([o.shear_wave_1([th, ph]), o.shear_wave_2([th, ph]), o.longitudinal_wave([th, ph])], got, rtol=1e-12,
                  what='single waves')
        close(rot.phase_velocity(polar_of(R @ n)), want, rtol=1e-6, atol=1e-6 * want[2], what='rotated crystal')
        close(scaled.phase_velocity((th, ph)), want * np.sqrt(c['factor']), rtol=1e-7, atol=1e-6 * want[2],
              what='stiffness multiplied')
        close(denser.phase_velocity((th, ph)), want / np.sqrt(c['factor']), rtol=1e-7, atol=1e-6 * want[2],
              what='density multiplied')
        close(s.phase_velocity([np.pi - th, ph + np.pi]), want, rtol=1e-6, atol=1e-6 * want[2], what='opposite direction')
    ctx.note(c['system'])
    ctx.interesting(c['system'] != 'isotropic')


@st.composite
def report_case(draw):
    c = draw(el.tensors(systems=['orthorhombic'], spread=0.6, neg=True))
    c['rho'] = draw(st.one_of(st.none(), st.floats(500., 12000.)))
    return c


def report_body(c, ctx):
    """velocities of the polycrystal in the report"""
    C = el.make(c)
    if not el.stable(C, 5e-3):
        return
    log, r, _ = analyse(C, c['rho'], ctx.scratch)
    lines = [l for l in log.splitlines() if '(Vs):' in l or '(Vp):' in l]
    if c['rho'] is None:
        check(not lines and 'V_s1' not in log, 'wave velocities reported without a density: {}', lines)
        check('not provided' in log, 'the missing density is not reported')
        return
    check(len(lines) == 2, 'velocity lines: {}', lines)
    got = [float(l.split(':')[1].split()[0]) for l in lines]
    a = el.averages(C)[2]
    want = [np.sqrt(a[2] * 1e9 / c['rho']) / 1e3, np.sqrt((a[0] + 4. * a[2] / 3.) * 1e9 / c['rho']) / 1e3]
    close(got, want, atol=1.1e-5, what='reported Vs and Vp')
    av = [[float(x) for x in l.split()[1:]] for l in log.splitlines() if l.split()[:1] in (['Voigt'], ['Reuss'], ['Hill'])]
    close(av, el.averages(C), rtol=1e-7, atol=1e-5, what='reported averages')
    ctx.interesting(True)


SUBS = [Sub('velocities', case, body, quick=500, thorough=8000, shards=(2, 6)),
        Sub('report', report_case, report_body, quick=8, thorough=50, shards=(3, 6))]
