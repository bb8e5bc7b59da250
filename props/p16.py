"""P16: mechanical stability and crystal symmetry."""
import os
import re
import numpy as np
import scipy.optimize
from hypothesis import strategies as st
from vlib import elastic as el
from vlib.core import Sub, check, close, fail
from props.p13 import analyse

RULE = ('Generated: tensors with the symmetry of each crystal system (averages over the point group), then left alone or with '
        'one independent element changed; symmetric matrices with chosen eigenvalues, some of them zero or negative, as '
        'input files of complete runs. Oracle: the relations between elements that averaging over the rotations of each system leaves; eigenvalues by numpy. '
        'Non-trivial: broken symmetry, non-cubic systems, unstable matrices.')
ASSUMPTIONS = ['standard axes (monoclinic unique axis b, trigonal two-fold axis along x)',
               'elements equal within 1e-3 GPa count as equal; cases within a factor of 1.5 of that are left out']


@st.composite
def sym_case(draw):
    c = draw(el.tensors(spread=1.))
    c['scale'] = draw(st.sampled_from([80., 100., 250., 600., 1500.]))
    c['cell'] = [draw(st.integers(0, 5)), draw(st.integers(0, 5))]
    c['delta'] = draw(st.one_of(st.none(), st.floats(0.1, 15.), st.floats(-15., -0.1), st.floats(0.004, 0.05), st.floats(-0.05, -0.004)))
    c['isocase'] = draw(st.booleans())
    return c


_constraints = {}


def constraints(name):
    """linear relations between elements that hold in a system, found on a random tensor averaged over its rotations"""
    if name not in _constraints:
        out = []
        if name != 'triclinic':
            A = np.random.RandomState(7).standard_normal((6, 6))
            T = el.symmetrise(A @ A.T, name)
            cells = [(i, j) for i in range(6) for j in range(i, 6)]
            for n, a in enumerate(cells):
                if abs(T[a]) < 1e-9:
                    out.append([(a, 1.)])
                    continue
                for b in cells[n + 1:]:
                    for sg in (1., -1.):
                        if abs(T[a] - sg * T[b]) < 1e-9:
                            out.append([(a, 1.), (b, -sg)])
            if name != 'cubic' and abs(T[5, 5] - 0.5 * (T[0, 0] - T[0, 1])) < 1e-9:
                out.append([((5, 5), 1.), ((0, 0), -0.5), ((0, 1), 0.5)])
        _constraints[name] = out
    return _constraints[name]


def violation(C, name):
    return max([abs(sum(k * C[a] for a, k in r)) for r in constraints(name)] or [0.])


def expected(C):
    """most symmetric system of the list, or None when a decision is within the tolerance"""
    for s in el.SYSTEMS:
        b = violation(C, s)
        if b <= 7e-4:
            check(el.breaks(C, s) <= 1e-2, 'harness: {} {}', s, C)
            return s
        if b <= 1.5e-3:
            return None
        check(el.breaks(C, s) >= 1e-4, 'harness: {} {}', s, C)
    return None


def sym_body(c, ctx):
    from quantas.soec.utils.symmetry import check_symmetry
    C = el.make(c)
    if c['system'] != 'isotropic':
        # round in a way that keeps the constraints
        C = el.symmetrise(np.round(C, 3), c['system'])
    if c['delta'] is not None:
        i, j = c['cell']
        C[i, j] += c['delta']
        C[j, i] = C[i, j]
    keep = C.copy()
    want = expected(C)
    if want is None:
        ctx.note('within the tolerance, left out')
        return
    if c['delta'] is None and c['system'] != 'isotropic':
        # the construction itself, when generic
        idx = el.SYSTEMS.index(c['system'])
        if all(violation(C, s) > 1.5e-3 for s in el.SYSTEMS[:idx] if s != 'isotropic'):
            check(want == c['system'], 'harness: {} {}', want, c['system'])
    try:
        got = check_symmetry(C)
    except Exception as e:
        fail('no answer for a {} matrix: {!r}\n{}', want, e, C)
    check(got == want, 'recognised as {}, its symmetry is {}\n{}', got, want, C)
    check(np.array_equal(C, keep), 'matrix modified')
    ctx.note(('broken ' if c['delta'] is not None else '') + c['system'] + ' -> ' + want)
    ctx.interesting(want not in ('cubic', 'triclinic') or c['delta'] is not None)


@st.composite
def stab_case(draw):
    c = {'seed': draw(st.integers(0, 2 ** 31 - 1)), 'system': draw(st.sampled_from(el.SYSTEMS)),
         'nneg': draw(st.integers(1, 3)), 'size': draw(st.floats(1e-3, 1.)),
         'kind': draw(st.sampled_from(['negative', 'negative', 'zero shear', 'negative shear', 'C12 > C11', 'all negative',
                                       'complex', 'barely', 'barely']))}
    c['rho'] = draw(st.one_of(st.none(), st.floats(500., 12000.)))
    return c


def unstable(c):
    rng = np.random.RandomState(c['seed'])
    if c['kind'] in ('negative', 'all negative', 'complex'):
        lam = rng.uniform(20., 300., 6)
        k = 6 if c['kind'] == 'all negative' else c['nneg']
        lam[:k] = -c['size'] * rng.uniform(0.1, 100., k)
        q, _ = np.linalg.qr(rng.standard_normal((6, 6)))
        C = q @ np.diag(lam) @ q.T
        return 0.5 * (C + C.T)
    C = el.make({'system': c['system'], 'seed': c['seed'], 'spread': 0.4, 'like': False, 'scale': 200.})
    if c['kind'] == 'barely':
        return C - np.eye(6) * (np.linalg.eigvalsh(C)[0] + 10. ** (-4.9 + 4. * c['size']))
    if c['kind'] == 'C12 > C11':
        C = np.diag([150., 150., 150., 60., 60., 60.])
        off = 150. * (1. + c['size'])
        C[:3, :3] += off - np.diag([off] * 3)
        return C
    k = 3 + c['seed'] % 3
    C[k, :] = C[:, k] = 0.
    C[k, k] = 0. if c['kind'] == 'zero shear' else -50. * c['size']
    return C


def stab_body(c, ctx):
    C = np.round(unstable(c), 9)
    e = np.sort(np.linalg.eigvalsh(C))
    if not (e[0] <= -1e-5 or c['kind'] == 'zero shear'):
        ctx.note('decided by rounding, left out')
        return
    log, r, h5 = analyse(C, c['rho'], ctx.scratch)
    check(not os.path.exists(h5), 'results were saved for an unstable crystal (eigenvalues {})', e)
    check('unstable' in log or 'unstable' in r.output, 'not reported as mechanically unstable (eigenvalues {})\n{}', e,
          r.output[-400:])
    check('Anisotropy' not in log, 'analysis continued for an unstable crystal')
    if 'lambda_1' in log:
        got = [float(x) for x in re.findall(r'lambda_\d:\s*(\S+)', log)]
        close(got, e, atol=1.1e-5, what='reported eigenvalues')
        ctx.note('eigenvalues reported')
    ctx.note(c['kind'])
    ctx.interesting(True)


@st.composite
def stable_case(draw):
    c = draw(el.tensors(systems=['orthorhombic', 'cubic', 'triclinic'], spread=1.5))
    c['small'] = draw(st.sampled_from([None, 0.5, 0.05, 1e-3, 1e-4, 1e-5, 1e-6]))
    c['full'] = draw(st.sampled_from([False] * 15 + [True]))
    c['fmt'] = draw(st.booleans())
    return c


def one_point(func, ranges, args=(), Ns=20, full_output=0, *a, **k):
    x = np.array([0.3 * (r[1] - r[0]) + r[0] for r in ranges])
    return (x, func(x), None, None) if full_output else x


def stable_body(c, ctx):
    """a stable crystal is never refused; looked at through the calculator, mostly with the searches left out"""
    from quantas.soec.soec import SOECCalculator
    C = el.make(c)
    e = np.linalg.eigvalsh(C)
    if c['small'] is not None:
        C = C + np.eye(6) * (c['small'] - e[0])      # smallest eigenvalue just positive
    C = np.round(C, 10)
    e = np.sort(np.linalg.eigvalsh(C))
    if e[0] < 1e-10 * e[-1]:
        ctx.note('not stable, left out')
        return
    path = os.path.join(ctx.scratch, 's.dat')
    with open(path, 'w') as f:
        f.write(el.soec_text(C))
    calc = SOECCalculator({'polar': False, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa',
                           'plotting': False, 'outfig': None, 'dpi': 80})
    err = calc.read_input(path)
    check(err is None, 'stable crystal refused: {}', err)
    brute = scipy.optimize.brute
    if not c['full']:
        scipy.optimize.brute = one_point      # the searches take minutes and decide nothing here
    try:
        calc.run()
    finally:
        scipy.optimize.brute = brute
    check(calc.completed, 'stable crystal (eigenvalues {}) not analysed: {}', e, calc.error)
    close(calc.results['eigv'], e, rtol=1e-8, atol=1e-9 * e[-1], what='eigenvalues')
    close(calc.results['avgs'], el.averages(C), rtol=1e-6, atol=1e-6, what='averages of the run')
    ctx.note(c['system'] + (' with the searches' if c['full'] else ''))
    ctx.interesting(True)


SUBS = [Sub('symmetry', sym_case, sym_body, quick=500, thorough=8000, shards=(2, 6)),
        Sub('unstable', stab_case, stab_body, quick=40, thorough=1500, shards=(2, 4)),
        Sub('stable', stable_case, stable_body, quick=48, thorough=640, shards=(4, 8))]
