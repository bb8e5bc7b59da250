"""P11: polycrystalline averages."""
import numpy as np
from hypothesis import strategies as st
from vlib import elastic as el
from vlib.core import Sub, check, close

RULE = ('Generated: positive-definite stiffness tensors of every crystal system (built by averaging random tensors over the '
        'rotations of the point group, near-isotropic to strongly anisotropic, some close to a mechanical instability, several magnitudes), random rotations. '
        'Non-trivial: not isotropic.')
ASSUMPTIONS = ['stiffness given in Voigt notation, positive definite with condition number below 1e5']


@st.composite
def case(draw):
    c = draw(el.tensors(soft=True, neg=True))
    c['rot'] = draw(st.integers(0, 2 ** 31 - 1))
    c['rho'] = draw(st.floats(100., 20000.))
    return c


def body(c, ctx):
    from quantas.soec.utils.soec_obj import SOEC, SOECOrtho
    from quantas.seismic.utils.seismic_obj import Seismic
    C = el.make(c)
    if not el.stable(C, 1e-5):
        ctx.note('unstable, left out')
        return
    keep = C.copy()
    want = el.averages(C)
    s = SOEC(C, c['rho'])
    objs = [('general', s)]
    if c['system'] in ('orthorhombic', 'tetragonal_high', 'cubic'):
        objs.append(('orthotropic', SOECOrtho(s)))
    for nm, o in objs:
        got = np.array(o.averages(), dtype=float)
        check(got.shape == (3, 4), '{}: averages have shape {}', nm, got.shape)
        sc = np.array([want[0, 0], want[0, 1], want[0, 2], 1.])
        close(got, want, rtol=1e-9, atol=np.broadcast_to(1e-11 * sc, (3, 4)), what=nm + ' averages')
    K, E, G, nu = got.T
    tol = 1e-10 * K[0]
    check(K[1] <= K[2] + tol and K[2] <= K[0] + tol, 'bulk moduli not ordered: {}', K)
    check(G[1] <= G[2] + tol and G[2] <= G[0] + tol, 'shear moduli not ordered: {}', G)
    close(E, 2. * G * (1. + nu), rtol=1e-9, what='E = 2G(1+nu)')
    close(E, 3. * K * (1. - 2. * nu), rtol=1e-9, atol=1e-9 * K, what='E = 3K(1-2nu)')
    if c['system'] == 'isotropic':
        close(got[1], got[0], rtol=1e-7, what='isotropic: Reuss and Voigt')
    close(s.stiffness, C, what='stiffness')
    close(np.dot(s.compliance, C), np.eye(6), atol=1e-8, what='compliance times stiffness')
    # rotated crystal
    R = el.random_rotation(np.random.RandomState(c['rot']))
    Cr = el.rotate(C, R)
    close(np.array(SOEC(Cr, c['rho']).averages()), got, rtol=1e-8, atol=1e-9 * K[0], what='averages of the rotated crystal')
    w = Seismic(C, c['rho'])
    close(w.bulk_modulus, want[2, 0], rtol=1e-9, what='seismic bulk modulus')
    close(w.shear_modulus, want[2, 2], rtol=1e-9, what='seismic shear modulus')
    vs = np.sqrt(want[2, 2] * 1e9 / c['rho']) / 1e3
    vp = np.sqrt((want[2, 0] + 4. * want[2, 2] / 3.) * 1e9 / c['rho']) / 1e3
    close(s.isotropic_velocities(), [vs, vs, vp], rtol=1e-9, what='average wave velocities')
    close(w.isotropic_velocity, [vs, vs, vp], rtol=1e-9, what='seismic average wave velocities')
    close([w.iso_S, w.iso_P], [vs, vp], rtol=1e-9, what='seismic average S and P velocities')
    check(np.array_equal(C, keep), 'the stiffness matrix of the caller was modified')
    ctx.note(c['system'])
    ctx.interesting(c['system'] != 'isotropic')


SUBS = [Sub('averages', case, body, quick=800, thorough=12000, shards=(2, 6))]
