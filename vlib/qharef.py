"""Model crystals for quasi-harmonic runs and an independent evaluation of the documented model.

Canonical units: A^3, hartree, cm^-1, K, GPa.
"""
import os
import numpy as np
from hypothesis import strategies as st
from vlib import phin

H, KB, NA = 6.62607015e-34, 1.380649e-23, 6.02214076e23
#: GPa per hartree/A^3
GPA = phin.GPA('Ha', 'A')
EOS = ['murnaghan', 'birchmurnaghan', 'pouriertarantola', 'vinet']


@st.composite
def crystal(draw, max_nat=2, max_nq=3, nv=(6, 11)):
    nat = draw(st.integers(1, max_nat))
    nq = draw(st.integers(1, max_nq))
    n = draw(st.integers(*nv))
    v0 = nat * draw(st.floats(8., 40.))
    lo, hi = draw(st.floats(0.06, 0.12)), draw(st.floats(0.05, 0.11))
    if draw(st.booleans()):
        x = np.linspace(-lo, hi, n)
    else:
        g = np.array(draw(st.lists(st.floats(0.4, 1.), min_size=n - 1, max_size=n - 1)))
        x = -lo + (lo + hi) * np.concatenate([[0.], np.cumsum(g) / g.sum()])
    low = draw(st.one_of(st.none(), st.none(), st.floats(-1.5, 1.).map(lambda e: 10. ** e)))
    return {'low': low, 'nat': nat, 'nq': nq, 'V0': v0, 'K0': draw(st.floats(30., 250.)), 'KP': draw(st.floats(3., 6.)),
            'E0': draw(st.one_of(st.floats(-1500., -1.), st.floats(-20., -1.))), 'x': x.tolist(),
            'static': draw(st.sampled_from(['poly', 'bm'])), 'w': [draw(st.integers(1, 8)) for _ in range(nq)],
            'seed': draw(st.integers(0, 2 ** 31 - 1)), 'gamma': draw(st.sampled_from(['poly', 'power'])),
            'gmin': draw(st.sampled_from([0.3, 0.8, -0.8])), 'gamma_pt': draw(st.booleans()), 'fmax': draw(st.floats(200., 1500.))}


def static(c, V):
    x = np.asarray(V, dtype=float) / c['V0'] - 1.
    k = c['K0'] * c['V0'] / GPA
    if c['static'] == 'poly':
        return c['E0'] + k * (x ** 2 / 2. - (c['KP'] + 1.) * x ** 3 / 6. + (c['KP'] + 1.) * (c['KP'] + 2.) * x ** 4 / 26.)
    e = (c['V0'] / np.asarray(V, dtype=float)) ** (2. / 3.)
    return c['E0'] + 9. / 16. * k * ((e - 1.) ** 3 * c['KP'] + (e - 1.) ** 2 * (6. - 4. * e))


def bands(c, V):
    """(nq, 3 nat, nv) frequencies in cm^-1."""
    rng = np.random.RandomState(c['seed'])
    shape = (c['nq'], 3 * c['nat'])
    nu = rng.uniform(60., c['fmax'], shape)
    gam = rng.uniform(c['gmin'], 2.4, shape)
    cur = rng.uniform(0., 1.5, shape)
    if c['gamma_pt']:
        nu[0, :3] = 0.     # Gamma-point acoustic branches
        if c['nq'] == 1 and c['nat'] == 1:
            nu[0, 2] = 150.
    if c.get('low'):
        nu[-1, -1] = c['low']     # a very soft mode (a fraction of a wavenumber)
    x = np.asarray(V, dtype=float) / c['V0'] - 1.
    x = x[None, None, :]
    if c['gamma'] == 'poly':
        return nu[:, :, None] * (1. - gam[:, :, None] * x + cur[:, :, None] * x ** 2)
    return nu[:, :, None] * (1. + x) ** (-gam[:, :, None])


def volumes(c):
    return c['V0'] * (1. + np.array(c['x']))


def write(c, path, eunit='Ha', lunit='A', funit='cm^-1', style=0, permq=None, permm=None, wscale=1., split=None, permv=None):
    V = volumes(c)
    if permv is not None:       # the volumes listed in another order
        V = V[list(permv)]
    b = bands(c, V)
    w = np.array(c['w'], dtype=float)
    if permq is not None:
        b, w = b[permq], w[permq]
    if permm is not None:
        b = b[:, permm]
    w = w * wscale
    if split is not None:
        k, f = split
        b = np.concatenate([b, b[k:k + 1]])
        w = np.concatenate([w, [w[k] * (1 - f)]])
        w[k] *= f
    text = phin.yaml_text(V * phin.LUNIT[lunit] ** 3, static(c, V) * phin.EUNIT[eunit], b * phin.FUNIT[funit], w, style=style)
    with open(path, 'w') as f:
        f.write(text)


# --- harmonic functions of one spectrum, per cell, in hartree (S and Cv in hartree/K) --------------------------------------
def oscillator(T, nu, order=0):
    """F, U-part etc. of modes nu (cm^-1) at T: dict of arrays shaped like nu."""
    hv = H * nu * phin.C_CM / phin.HARTREE_J
    kb = KB / phin.HARTREE_J
    on = nu > 0
    hv = np.where(on, hv, 1e-9)
    out = {}
    if T <= 0:
        z = np.zeros_like(hv)
        out = {'zpe': hv / 2, 'uth': z, 's': z, 'cv': z, 'f': hv / 2, 'df': np.full_like(hv, 0.5), 'd2f': z}
    else:
        x = hv / (kb * T)
        xs = np.minimum(x, 690.)
        em = np.expm1(xs)
        n = 1. / em
        out['zpe'] = hv / 2
        out['uth'] = hv * n
        out['s'] = kb * (x * n - np.log(-np.expm1(-xs)))
        out['cv'] = kb * x ** 2 * n * (n + 1.)
        out['f'] = hv / 2 + kb * T * np.log(-np.expm1(-xs))
        out['df'] = 0.5 + n                       # dF/d(hv)
        out['d2f'] = -n * (n + 1.) / (kb * T)     # d2F/d(hv)2
    return {k: np.where(on, v, 0.) for k, v in out.items()}, np.where(on, 1., 0.)


def harmonic(T, b, w):
    """b (nq, nm, nv) -> dict of (nv,) arrays"""
    w = np.asarray(w, dtype=float)
    o, _ = oscillator(T, b)
    return {k: np.einsum('i,ijk->k', w / w.sum(), v) for k, v in o.items()}


class Fit(object):
    """Least-squares polynomial in a centred and scaled variable."""

    def __init__(self, V, Y, deg):
        V = np.asarray(V, dtype=float)
        self.c, self.h = (V.max() + V.min()) / 2., np.ptp(V) / 2.
        A = np.polynomial.polynomial.polyvander((V - self.c) / self.h, deg)
        Y = np.asarray(Y, dtype=float)
        self.shape = Y.shape[:-1]
        self.off = Y.mean(axis=-1, keepdims=True)
        y2 = (Y - self.off).reshape(-1, V.size)
        self.p = np.linalg.lstsq(A, y2.T, rcond=None)[0]      # (deg+1, ny)
        self.res = np.abs(y2 - (A @ self.p).T).max()

    def __call__(self, V, m=0):
        z = (np.asarray(V, dtype=float) - self.c) / self.h
        p = np.polynomial.polynomial.polyder(self.p, m) / self.h ** m if m else self.p
        r = np.polynomial.polynomial.polyval(z, p)
        if m == 0:
            r = r + self.off.reshape((-1,) + (1,) * z.ndim)
        return r.reshape(self.shape + z.shape)

    def minimum(self, P):
        """minima of F + P V inside the sampled interval: list of volumes"""
        d = np.polynomial.polynomial.polyder(self.p[:, 0]) / self.h
        d = d.copy()
        d[0] += P
        r = np.polynomial.polynomial.polyroots(np.trim_zeros(d, 'b'))
        r = r[np.abs(r.imag) < 1e-9].real
        r = r[np.abs(r) <= 1.]
        V = self.c + self.h * r
        return [v for v in V if self(v, 2)[()] > 0]


def settings(T, P, **kw):
    from props.p04 import settings as base
    s = base(T, prange=P, pressure_unit='GPa', qha_scheme='freq', minimization='poly', kieffer=False, edeg=3, fdeg=3,
             eos_function='birchmurnaghan')
    s.update(kw)
    return s


def run(path, s):
    """QHACalculator run; returns (calculator, error)"""
    from quantas.qha.qha import QHACalculator
    calc = QHACalculator(s)
    err = calc.read_input(path)
    if err is None:
        calc.report_input_data()
        calc.run()
        err = calc.error if not calc.completed else None
    return calc, err
