"""P28: acoustic (Kieffer) contributions."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import zeta
from quantas.qha.utils.kieffer import Kieffer
from vlib.core import Sub, check, close

H, KB, NA = 6.62607015e-34, 1.380649e-23, 6.02214076e23
R = KB * NA
RULE = ('Generated: 1 to 4 acoustic cut-off frequencies between 1 GHz and 100 THz and temperatures with h nu/kT between 1e-6 and '
        '1e5, or 0 K. Oracle: Gauss-Legendre quadrature of the oscillator functions over x = xi sin(q), the classical and Debye limits, and '
        'finite-difference identities. Non-trivial: a temperature above 0 K.')
ASSUMPTIONS = ['the free energy of the class has no zero-point term', 'molar values (J/mol, J/mol/K), one mole of cells, one branch per cut-off']

XG, WG = np.polynomial.legendre.leggauss(120)


def integral(xi, f):
    qm = np.pi / 2 if xi <= 80 else np.arcsin(80. / xi)
    e = np.concatenate([[0.], qm * np.geomspace(1e-5, 1., 14)])
    q = ((e[1:] + e[:-1]) / 2)[:, None] + ((e[1:] - e[:-1]) / 2)[:, None] * XG
    return (((e[1:] - e[:-1]) / 2)[:, None] * WG * q * q * f(xi * np.sin(q))).sum() * 3 * (2 / np.pi) ** 3


def fcv(x):
    return x * x * np.exp(-x) / np.expm1(-x) ** 2


def fs(x):
    return x / np.expm1(x) - np.log(-np.expm1(-x))


def ff(x):
    return np.log(-np.expm1(-x))


@st.composite
def case_strategy(draw):
    n = draw(st.integers(1, 4))
    f = [10. ** draw(st.floats(9., 14.)) for _ in range(n)]
    if draw(st.booleans()):
        f = [10. ** draw(st.floats(11.5, 13.2)) for _ in range(n)]
    xi = 10. ** draw(st.one_of(st.floats(-2., 2.), st.floats(-6., 5.)))
    T = H * max(f) / KB / xi
    return {'f': f, 'T': draw(st.sampled_from([T, T, T, T, 0.])), 'kind': draw(st.sampled_from(['array', 'list']))}


def body(c, ctx):
    f, T = c['f'], c['T']
    k = Kieffer(np.array(f) if c['kind'] == 'array' else list(f))
    if T == 0.:
        check(k.heat_capacity(0.) == 0. and k.entropy(0.) == 0. and k.helmholtz(0.) == 0., 'not zero at 0 K: Cv={} S={} F={}',
              k.heat_capacity(0.), k.entropy(0.), k.helmholtz(0.))
        return
    xi = [H * v / KB / T for v in f]
    C, S, F = k.heat_capacity(T), k.entropy(T), k.helmholtz(T)
    rt = 2e-8
    close(C, R * sum(integral(x, fcv) for x in xi), rtol=rt, atol=1e-30, what='heat capacity at {} K'.format(T))
    close(S, R * sum(integral(x, fs) for x in xi), rtol=rt, atol=1e-30, what='entropy at {} K'.format(T))
    close(F, R * T * sum(integral(x, ff) for x in xi), rtol=rt, atol=1e-30 * T, what='free energy at {} K'.format(T))
    n = len(f)
    check(0 <= C <= n * R * (1 + 1e-7), 'heat capacity {} outside 0..{}', C, n * R)
    check(S >= 0 and F <= 0, 'S={} F={}', S, F)
    if max(xi) < 1e-2:
        close(C, n * R, rtol=1e-5, what='classical limit')
        ctx.note('classical')
    if min(xi) > 400.:
        # x^4 e^x/(e^x-1)^2 integrates to 4 pi^4/15
        close(C, R * sum(3 * (2 / np.pi) ** 3 * 4 * np.pi ** 4 / 15 / x ** 3 for x in xi), rtol=1e-3, what='T^3 limit')
        ctx.note('T^3')
    # additivity
    close(C, sum(Kieffer([v]).heat_capacity(T) for v in f), rtol=1e-9, what='heat capacity of the sum of the branches')
    # identities
    d = 1e-4 * T
    s = k.entropy(T + d) - k.entropy(T - d)
    close(T * s / (2 * d), C, rtol=1e-5, atol=1e-6 * S, what='Cv = T dS/dT')
    df = k.helmholtz(T + d) - k.helmholtz(T - d)
    close(-df / (2 * d), S, rtol=1e-5, atol=1e-6 * abs(F) / T, what='S = -dF/dT')
    U = F + T * S
    check(U >= -1e-7 * abs(F), 'thermal energy {}', U)
    # later temperatures do not depend on the earlier ones
    check(k.entropy(T) == S and k.heat_capacity(T) == C, 'a second evaluation differs')
    ctx.interesting(True)


SUBS = [Sub('integrals', case_strategy, body, quick=250, thorough=8000, shards=(4, 8))]
