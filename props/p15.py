"""P15: seismic analysis of single directions."""
import os
import sys
import types
import numpy as np
import h5py
from hypothesis import strategies as st
from vlib import elastic as el
from vlib.core import Sub, check, close
from props.p12 import angle

RULE = ('Generated: positive-definite tensors of every crystal system, densities, and sequences of directions given in '
        'spherical or Cartesian form (random, axes, diagonals, any length) with the properties read in any order, some of '
        'them, repeatedly. Oracles: Christoffel contraction, gradients of the frequency surface (analytic and by finite '
        'differences), Jacobian of the ray direction, and a new object analysing only that direction. Non-trivial: '
        'anisotropic and more than one direction.')
ASSUMPTIONS = ['group quantities of degenerate waves depend on the choice of polarisations and are judged with the reported '
               'ones', 'the power-flow angle is resolved to 1.5e-5 rad (cosines are rounded to ten decimals)']

READS = ['christoffel', 'q', 'eigenval', 'eigenvec', 'phase_velocity', 'rel_phase_velocity', 'group_velocity', 'group_abs',
         'group_dir', 'group_theta', 'group_phi', 'powerflow_angle', 'enhancement', 'rel_group_velocity', 'theta', 'phi',
         'grad_eigenval', 'isotropic_velocity']


@st.composite
def case(draw):
    c = draw(el.tensors(soft=True, neg=True))
    c['rho'] = draw(st.floats(300., 20000.))
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.booleans()):
            d = ['s', draw(angle(0., 3.14159)), draw(angle(-3.14, 6.28))]
        else:
            v = draw(st.lists(st.one_of(st.floats(-5., 5.), st.sampled_from([0., 1., -1., 0.5, 0.02, -3e-3, 4e-4])), min_size=3, max_size=3))
            if np.linalg.norm(v) < 1e-3:
                v = [0., 0., 1.]
            d = ['c', v, draw(st.booleans())]
        steps.append({'d': d, 'read': draw(st.lists(st.sampled_from(READS), max_size=6))})
    c['steps'] = steps
    return c


def set_dir(w, d):
    if d[0] == 's':
        w.spherical_direction(d[1], d[2])
        return el.unit(d[1], d[2])
    v = np.array(d[1]) if d[2] else list(d[1])
    w.cartesian_direction(v)
    check(np.array_equal(v, d[1]), 'the vector of the caller was modified')
    return np.array(d[1]) / np.linalg.norm(d[1])


def christ(C4, n):
    return np.einsum('j,k,ijkl->il', n, n, C4)


def group_of(C4, n, i, rho):
    """group velocity of a non-degenerate wave, from its own eigenproblem (works for unnormalised n)"""
    n = n / np.linalg.norm(n)
    lam, vec = np.linalg.eigh(christ(C4, n) * 1000. / rho)
    e = vec[:, i]
    return np.einsum('i,l,ijkl,k->j', e, e, C4, n) * 1000. / rho / np.sqrt(lam[i])


def verify(w, C4, n, rho, ctx, what):
    q = np.array(w.q)
    close(q, n, atol=1e-12, what=what + 'direction')
    close(el.unit(w.theta, w.phi), n, atol=1e-9, what=what + 'reported theta and phi')
    M = christ(C4, n) * 1000. / rho
    close(w.christoffel, M, rtol=1e-10, atol=1e-11 * np.abs(M).max(), what=what + 'Christoffel matrix')
    lam = np.linalg.eigvalsh(M)
    v = np.sqrt(lam)
    close(w.eigenval, lam, rtol=1e-8, atol=1e-10 * lam[2], what=what + 'eigenvalues')
    close(w.phase_velocity, v, rtol=1e-7, atol=1e-8 * v[2], what=what + 'phase velocities')
    e = np.array(w.eigenvec)
    close(e @ e.T, np.eye(3), atol=1e-9, what=what + 'polarisations')
    close(e @ M, lam[:, None] * e, atol=1e-8 * lam[2], what=what + 'polarisations do not solve the Christoffel equation:')
    vg = np.array([np.einsum('i,l,ijkl,k->j', e[i], e[i], C4, n) * 1000. / rho / v[i] for i in range(3)])
    sc = np.linalg.norm(vg, axis=1)
    got = np.array(w.group_velocity)
    close(got, vg, atol=np.broadcast_to(1e-7 * sc[:, None], (3, 3)), what=what + 'group velocities')
    close(got @ n, v, rtol=1e-7, atol=1e-8 * v[2], what=what + 'projection of the group velocity')
    close(w.group_abs, sc, rtol=1e-7, what=what + 'group speeds')
    check(np.all(np.array(w.group_abs) >= v * (1. - 1e-9)), '{}group slower than phase', what)
    gd = vg / sc[:, None]
    close(w.group_dir, gd, atol=1e-7, what=what + 'ray directions')
    for i in range(3):
        close(el.unit(w.group_theta[i], w.group_phi[i]), gd[i], atol=1e-7, what=what + 'reported angles of the ray')
    ang = np.arctan2(np.linalg.norm(np.cross(gd, n), axis=1), gd @ n)
    close(w.powerflow_angle, ang, atol=2e-5, what=what + 'power-flow angles')
    iso = np.array(w.isotropic_velocity)
    close(w.rel_phase_velocity, v / iso, rtol=1e-7, atol=1e-8, what=what + 'relative phase velocities')
    close(w.rel_group_velocity, sc / iso, rtol=1e-7, what=what + 'relative group velocities')
    gM = np.einsum('j,ajkl->akl', n, np.einsum('kjal->ajkl', C4) + np.einsum('kajl->ajkl', C4)) * 1000. / rho
    close(w.grad_M, gM, atol=1e-10 * np.abs(C4).max() * 1000. / rho, what=what + 'gradient of the Christoffel matrix')
    close(w.grad_eigenval, 2. * vg * v[:, None], atol=1e-6 * lam[2] + np.zeros((3, 3)), what=what + 'gradient of the eigenvalues')
    gaps = [lam[1] - lam[0], min(lam[1] - lam[0], lam[2] - lam[1]), lam[2] - lam[1]]
    enh = np.array(w.enhancement)
    check(enh.shape == (3,), 'enhancement shape {}', enh.shape)
    # second-order perturbation theory, also for waves that are nearly as fast
    _, ev = np.linalg.eigh(M)
    c2 = (np.einsum('kabl->abkl', C4) + np.einsum('kbal->abkl', C4)) * 1000. / rho
    for i in range(3):
        part = gaps[i] / lam[2]
        if part < 1e-7:
            continue
        x = ev[:, i]
        H = np.einsum('abkl,k,l->ab', c2, x, x)
        for j in range(3):
            if j != i:
                t = np.einsum('akl,k,l->a', gM, ev[:, j], x)
                H = H + 2. * np.outer(t, t) / (lam[i] - lam[j])
        dv = H / (2. * v[i]) - np.outer(vg[i], vg[i]) / v[i]
        a = np.eye(3)[np.argmin(np.abs(n))]
        u1 = np.cross(n, a)
        u1 /= np.linalg.norm(u1)
        d1, d2 = [(np.eye(3) - np.outer(gd[i], gd[i])) @ dv @ u / sc[i] for u in (u1, np.cross(n, u1))]
        J, full = abs(gd[i] @ np.cross(d1, d2)), np.linalg.norm(d1) * np.linalg.norm(d2)
        if J > 1e-3 * max(full, 1e-6):
            close(enh[i], 1. / J, rtol=(1e-8 + 1e-11 / part) * (1. + full / J), what=what + 'enhancement factor of wave {} (separated by {:.2g})'.format(i, part))
            ctx.note('enhancement of nearly degenerate waves' if part < 1e-2 else 'enhancement of separated waves')
    # finite differences where the waves are well separated
    for i in range(3):
        if gaps[i] < 0.05 * lam[2]:
            continue
        h = 1e-5
        num = [(np.sqrt(np.linalg.eigvalsh(christ(C4, n + h * d) * 1000. / rho)[i]) -
                np.sqrt(np.linalg.eigvalsh(christ(C4, n - h * d) * 1000. / rho)[i])) / (2 * h) for d in np.eye(3)]
        close(got[i], num, atol=1e-5 * sc[i], what=what + 'group velocity (gradient of the frequency)')
        a = np.array([1., 0, 0]) if abs(n[0]) < 0.7 else np.array([0, 1., 0])
        u1 = np.cross(n, a)
        u1 /= np.linalg.norm(u1)
        u2 = np.cross(n, u1)

        def jac(h):
            d1, d2 = [(lambda p, m: (p / np.linalg.norm(p) - m / np.linalg.norm(m)) / (2 * h))(
                group_of(C4, n + h * u, i, rho), group_of(C4, n - h * u, i, rho)) for u in (u1, u2)]
            return abs(np.dot(gd[i], np.cross(d1, d2)))
        J = jac(2e-4)
        if J > 0.02:
            if abs(jac(4e-4) - J) > 2e-3 * J:       # steps too long near an instability
                ctx.note('enhancement factor not resolved by finite differences')
                continue
            close(enh[i], 1. / J, rtol=2e-3, atol=2e-4 / J ** 2, what=what + 'enhancement factor of wave %d' % i)
            ctx.note('enhancement compared')


def body(c, ctx):
    from quantas.seismic.utils.seismic_obj import Seismic
    C = el.make(c)
    if not el.stable(C, 1e-3):
        ctx.note('unstable, left out')
        return
    C4 = el.full_c(C)
    rho = c['rho']
    w = Seismic(C, rho)
    keep = C.copy()
    K, _, G, _ = el.averages(C)[2]
    close([w.bulk_modulus, w.shear_modulus], [K, G], rtol=1e-9, what='Hill bulk and shear moduli')
    vs, vp = np.sqrt(1000. * G / rho), np.sqrt(1000. * (K + 4. * G / 3.) / rho)
    close(w.isotropic_velocity, [vs, vs, vp], rtol=1e-9, what='isotropic velocities')
    close([w.iso_S, w.iso_P], [vs, vp], rtol=1e-9, what='isotropic S and P velocities')
    close(w.compliance @ C, np.eye(6), atol=1e-9 * np.linalg.cond(C), what='compliance times stiffness')
    check(np.array_equal(w.stiffness, C), 'the stiffness reported is another')
    for k, s in enumerate(c['steps']):
        n = set_dir(w, s['d'])
        first = {p: np.array(getattr(w, p)) for p in s['read']}
        new = Seismic(C, rho)
        set_dir(new, s['d'])
        for p in READS:
            close(getattr(w, p), getattr(new, p), rtol=1e-9, atol=1e-12, what='{} after other directions'.format(p))
            if p in first:
                close(getattr(w, p), first[p], rtol=1e-12, what='{} read again'.format(p))
        verify(w, C4, n, rho, ctx, 'direction %d: ' % (k + 1))
        ctx.interesting(c['system'] != 'isotropic' and k > 0)
    check(np.array_equal(C, keep), 'the stiffness matrix of the caller was modified')
    ctx.note(c['system'])


def calculator():
    """the seismic calculator, with a stand-in for the plotter base class if the repository still has none"""
    import quantas
    if not os.path.exists(os.path.join(os.path.dirname(quantas.__file__), 'core', 'plotter.py')):
        m = types.ModuleType('quantas.core.plotter')
        m.BasicPlotter = type('BasicPlotter', (object,), {})
        sys.modules.setdefault('quantas.core.plotter', m)
    from quantas.seismic.seismic import SeismicCalculator
    return SeismicCalculator


@st.composite
def surface_case(draw):
    c = draw(el.tensors(soft=True, neg=True))
    c['rho'] = draw(st.floats(300., 20000.))
    c['grid'] = [draw(st.integers(2, 6)), draw(st.integers(2, 9))]
    return c


def surface_body(c, ctx):
    SeismicCalculator = calculator()
    from quantas.seismic.utils.seismic_obj import Seismic
    C = el.make(c)
    if not el.stable(C, 1e-3):
        ctx.note('unstable, left out')
        return
    rho, (nt, nf) = c['rho'], c['grid']
    path, out = os.path.join(ctx.scratch, 's.dat'), os.path.join(ctx.scratch, 's.hdf5')
    with open(path, 'w') as f:
        f.write(el.soec_text(C, rho=rho))
    calc = SeismicCalculator({'silent': True, 'debug': False, 'logfile': None, 'ntheta': nt, 'nphi': nf, 'pressure_unit': 'GPa',
                              'plotting': False})
    err = calc.read_input(path)
    check(err is None, 'input refused: {}', err)
    calc.run()
    check(calc.completed, 'run not completed: {}', calc.error)
    calc.export_hdf5(out)
    th, ph = [a.ravel() for a in np.meshgrid(np.linspace(0., np.pi / 2, nt), np.linspace(0., 2. * np.pi, nf), indexing='ij')]
    with h5py.File(out, 'r') as f:
        tabs = [f[k][:] for k in ('ssecondary', 'fsecondary', 'primary')]
    w = Seismic(C, rho)
    for i, t in enumerate(tabs):
        check(t.shape == (nt * nf, 14), 'table of wave {}: shape {}', i, t.shape)
        close(t[:, 0], th, atol=1e-12, what='theta of wave {}'.format(i))
        close(t[:, 1], ph, atol=1e-12, what='phi of wave {}'.format(i))
    for k in range(nt * nf):
        # the angles as stored: the polarisations of equal waves are chosen by rounding
        w.spherical_direction(tabs[0][k, 0], tabs[0][k, 1])
        iso, v, g = np.array(w.isotropic_velocity), np.array(w.phase_velocity), np.array(w.group_abs)
        for i, t in enumerate(tabs):
            what = 'point {} of wave {}: '.format(k, i)
            want = np.concatenate(([th[k], ph[k], v[i], 100. * (v[i] / iso[i] - 1.)], w.eigenvec[i],
                                   [g[i], 100. * (g[i] / iso[i] - 1.)], w.group_velocity[i],
                                   [np.degrees(w.powerflow_angle[i]), w.enhancement[i]]))
            close(t[k], want, rtol=1e-9, atol=1e-9, what=what + 'stored row')
    ctx.interesting(c['system'] != 'isotropic' and nt != nf)


SUBS = [Sub('directions', case, body, quick=250, thorough=4000, shards=(3, 8)),
        Sub('surface', surface_case, surface_body, quick=60, thorough=800, shards=(2, 8))]
