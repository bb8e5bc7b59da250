"""P03: parallel kernels are deterministic and pure."""
import ctypes
import numpy as np
from hypothesis import strategies as st
from quantas.utils.physics import statistical_mechanics as SM
from quantas.utils.physics import thermodynamics as TD
from quantas.utils.math import fast_math as FM
from vlib.core import Sub, check, close, fail

RULE = ('Generated: kernel, array sizes from 1 to a few hundred rows, thread counts 2..16 and a history of other '
        'kernel calls in between. Each result under N threads (repeated) is compared with the single-thread result '
        'and with an independent formula, and all inputs are compared with copies. Non-trivial: more rows than '
        'one and more than one thread.')
ASSUMPTIONS = ['OpenMP thread count set through libgomp; data races are only seen when they change a value in one '
               'of the repetitions']

_omp = None


def threads(n):
    global _omp
    if _omp is None:
        _omp = ctypes.CDLL('libgomp.so.1')
    _omp.omp_set_dynamic(0)
    _omp.omp_set_num_threads(n)


def mk(seed, shape, lo, hi):
    # low-discrepancy filling: a deterministic function of one generated number
    n = int(np.prod(shape))
    x = (seed * 0.6180339887498949 + np.arange(1, n + 1) * 0.7548776662466927) % 1.0
    return (lo + (hi - lo) * x).reshape(shape)


H, KB, NA = 6.62607015e-34, 1.380649e-23, 6.02214076e23
SMK = ['zero_point_energy', 'thermal_energy', 'entropy', 'isochoric_heat_capacity', 'vibrational_free_energy']


def args_for(name, n, m, q, seed):
    T = mk(seed, (n,), 5., 2000.)
    if name in SMK:
        f = mk(seed + 1, (q, 4, m), 1e11, 6e13)
        if seed % 3:            # acoustic and imaginary modes
            u = mk(seed + 7, f.shape, 0., 1.)
            f = np.where(u < 0.15, -f, np.where(u < 0.25, 0., f))
        if seed % 5 == 0:
            T[int(seed) // 5 % n] = 0.
        return [T, f, mk(seed + 2, (q,), 0.1, 4.)]
    if name == 'internal_energy':
        return [mk(seed, (m,), -10, 0), mk(seed + 1, (m,), 0, 5), mk(seed + 2, (n, m), 0, 50)]
    if name == 'free_energy':
        return [mk(seed, (m,), -10, 0), mk(seed + 1, (n, m), -50, 50)]
    if name in ('enthalpy', 'gibbs'):
        return [mk(seed, (n, m), 1e-29, 1e-27), mk(seed + 1, (m,), 0, 1e10), mk(seed + 2, (n, m), -50, 50)]
    if name == 'adiabatic_bulk_modulus':
        return [T, mk(seed, (n, m), 1e-29, 1e-27), mk(seed + 1, (n, m), 10, 300), mk(seed + 2, (n, m), 0, 1e-4),
                mk(seed + 3, (n, m), 1, 500), 1e9]
    if name == 'gruneisen_parameter':
        return [mk(seed, (n, m), 1e-29, 1e-27), mk(seed + 1, (n, m), 1e10, 3e11), mk(seed + 2, (n, m), 0, 1e-4),
                mk(seed + 3, (n, m), 1, 500)]
    if name == 'multi_interpolate_array':
        return [mk(seed, (m,), 0.5, 1.5), mk(seed + 1, (n, q + 1), -3, 3)]
    if name == 'multi_interpolate_scalar':
        return [float(mk(seed, (1,), 0.5, 1.5)[0]), mk(seed + 1, (n, q + 1), -3, 3)]
    if name == 'multi_R2':
        X = mk(seed, (m + 2,), 0.5, 1.5)
        return [X, mk(seed + 1, (n, m + 2), -3, 3), mk(seed + 2, (n, q + 1), -3, 3)]
    raise KeyError(name)


def expect(name, a):
    if name in SMK:
        from props.p02 import reference
        ref = reference(a[0], a[1], a[2])[0]
        return ref[{'zero_point_energy': 'zpe', 'thermal_energy': 'uth', 'entropy': 's',
                    'isochoric_heat_capacity': 'cv', 'vibrational_free_energy': 'f'}[name]]
    if name == 'internal_energy':
        return (a[0] + a[1])[None, :] + a[2]
    if name == 'free_energy':
        return a[0][None, :] + a[1]
    if name in ('enthalpy', 'gibbs'):
        return a[2] + a[1][None, :] * a[0] * NA / 1000.
    if name == 'adiabatic_bulk_modulus':
        T, V, KT, al, Cv, pf = a
        return KT + (al * pf * KT) ** 2 * V * T[:, None] / (Cv / NA) / pf
    if name == 'gruneisen_parameter':
        return a[0] * a[1] * a[2] / (a[3] / NA)
    if name == 'multi_interpolate_array':
        return np.array([np.polynomial.polynomial.polyval(a[0], c) for c in a[1]])
    if name == 'multi_interpolate_scalar':
        return np.array([np.polynomial.polynomial.polyval(a[0], c) for c in a[1]])
    if name == 'multi_R2':
        X, Y, C = a
        yh = np.array([np.polynomial.polynomial.polyval(X, c) for c in C])
        yb = Y.mean(axis=1, keepdims=True)
        return ((yh - yb) ** 2).sum(axis=1) / ((Y - yb) ** 2).sum(axis=1)


KERNELS = SMK + ['internal_energy', 'free_energy', 'enthalpy', 'gibbs', 'adiabatic_bulk_modulus',
                 'gruneisen_parameter', 'multi_interpolate_array', 'multi_interpolate_scalar', 'multi_R2']


def func(name):
    for mod in (SM, TD, FM):
        if hasattr(mod, name):
            return getattr(mod, name)
    if name.startswith('multi_interpolate'):
        return FM.multi_interpolate
    raise AttributeError(name)


@st.composite
def case_strategy(draw):
    def one():
        return {'name': draw(st.sampled_from(KERNELS)),
                'n': draw(st.one_of(st.integers(1, 6), st.integers(2, 80), st.sampled_from([1, 8, 16, 17, 200]))),
                'm': draw(st.integers(1, 7)), 'q': draw(st.integers(1, 4)), 'seed': draw(st.integers(0, 10 ** 6))}
    return {'calls': [one() for _ in range(draw(st.integers(1, 3)))],
            'threads': draw(st.lists(st.integers(2, 16), min_size=1, max_size=3)),
            'repeat': draw(st.integers(1, 3))}


def body(case, ctx):
    calls = []
    for c in case['calls']:
        a = args_for(c['name'], c['n'], c['m'], c['q'], c['seed'])
        calls.append((c['name'], a, [np.array(x, copy=True) for x in a]))
    try:
        threads(1)
        base = []
        for name, a, copies in calls:
            r = np.array(func(name)(*a))
            close(r, expect(name, copies), rtol=1e-9, atol=1e-9, what=name)
            base.append(r)
        for nt in case['threads']:
            threads(nt)
            for rep in range(case['repeat']):
                for (name, a, copies), b in zip(calls, base):
                    r = np.asarray(func(name)(*a))
                    sc = np.abs(b) + np.max(np.abs(b)) * 1e-3
                    close(r, b, rtol=1e-12, scale=sc, what='%s with %d threads' % (name, nt))
                    for x, y in zip(a, copies):
                        if not np.array_equal(np.asarray(x), y):
                            fail('{} modified one of its arguments', name)
    finally:
        threads(1)
    for name, a, copies in calls:
        ctx.note(name)
    ctx.interesting(any(c['n'] > 1 for c in case['calls']))


SUBS = [Sub('threads', case_strategy, body, quick=350, thorough=6000, shards=(3, 4))]
