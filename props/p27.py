"""P27: polynomial and tensor helpers."""
import numpy as np
from hypothesis import strategies as st
from quantas.utils.math import polynomials as pl
from quantas.utils.math import fast_math as fm
from quantas.utils.math.derivative import derivative
from vlib.core import Sub, check, close

RULE = ('Generated: abscissae of 3 to 20 volumes or centred points, one to three-dimensional data, polynomials of degree 0 to 5 with and '
        'without noise, targets for minima, 3x3 matrices and angles. Oracle: the definitions, evaluated in centred variables or '
        'extended precision. Non-trivial: degree 1 or more and at least one spare point (fits), any other case.')
ASSUMPTIONS = ['allowances follow the conditioning of the monomial basis: eps * sum |c_k x^k|',
               'determination coefficients are judged for data that vary by more than 1e-6 of their size']

EPS = 2.3e-16


@st.composite
def abscissae(draw, nmin=3, nmax=20):
    n = draw(st.integers(nmin, nmax))
    kind = draw(st.sampled_from(['volumes', 'unit']))
    g = np.array(draw(st.lists(st.floats(0.3, 1.), min_size=n - 1, max_size=n - 1))) if n > 1 else np.zeros(0)
    t = np.concatenate([[0.], np.cumsum(g)])
    t = t / max(t[-1], 1e-9)
    if kind == 'volumes':
        v0, w = draw(st.floats(5., 2000.)), draw(st.floats(0.05, 0.3))
        return (v0 * (1. - w / 2 + w * t)).tolist()
    return (2. * t - 1.).tolist()


@st.composite
def fit_case(draw):
    X = draw(abscissae())
    d = draw(st.integers(0, min(5, len(X) - 1)))
    return {'X': X, 'deg': d, 'ny': draw(st.sampled_from([0, 1, 2, 5])), 'seed': draw(st.integers(0, 2 ** 31 - 1)),
            'noise': draw(st.sampled_from([0., 0., 1e-3, 0.3, 10.])), 'off': draw(st.sampled_from([0., 0., 1., -100.])),
            'pts': draw(st.lists(st.floats(-0.2, 1.2), min_size=1, max_size=6))}


def evaluate(p, x):
    """value and rounding allowance of polynomials p (.., deg+1) at x, by exact-ish long double Horner"""
    x = np.asarray(x, dtype=np.longdouble)
    p = np.asarray(p, dtype=np.longdouble)
    v = np.zeros(p.shape[:-1] + x.shape, dtype=np.longdouble)
    a = np.zeros_like(v)
    for k in range(p.shape[-1] - 1, -1, -1):
        c = p[..., k].reshape(p.shape[:-1] + (1,) * x.ndim)
        v = v * x + c
        a = a * np.abs(x) + np.abs(c)
    return v.astype(float), (a * EPS * 4 * p.shape[-1]).astype(float)


def fit_body(c, ctx):
    rng = np.random.RandomState(c['seed'])
    X = np.array(c['X'])
    mid, h = (X[0] + X[-1]) / 2, (X[-1] - X[0]) / 2
    z = (X - mid) / h
    deg, ny = c['deg'], max(c['ny'], 1)
    q = rng.uniform(-1., 1., (ny, deg + 1))
    if c['off']:
        q[:, 0] += c['off']
    Y = np.polynomial.polynomial.polyval(z, q.T)
    Y = Y.reshape(ny, X.size)
    Y = Y + c['noise'] * rng.uniform(-1., 1., Y.shape)
    Yin = Y[0].copy() if c['ny'] == 0 else Y.copy()
    X0, Y0 = X.copy(), Yin.copy()
    p = np.asarray(pl.polyfit(X, Yin, deg))
    check(p.shape == ((deg + 1,) if c['ny'] == 0 else (ny, deg + 1)), 'coefficients have shape {}', p.shape)
    check(np.array_equal(X, X0) and np.array_equal(Yin, Y0), 'the data were modified')
    p2 = p.reshape(ny if c['ny'] else 1, deg + 1)
    Yw = Y if c['ny'] else Y[:1]
    yh, tol = evaluate(p2, X)
    # reference least squares in the centred variable
    A = np.polynomial.polynomial.polyvander(z, deg)
    ref = np.linalg.lstsq(A, Yw.T, rcond=None)[0]
    want = (A @ ref).T
    size = np.abs(Yw).max()
    cond = np.linalg.cond(np.polynomial.polynomial.polyvander(X, deg) / np.sqrt((np.polynomial.polynomial.polyvander(X, deg) ** 2).sum(axis=0)))
    t = tol + 50 * EPS * cond * size
    usable = t.max() < 1e-3 * (size + 1e-30)
    if not usable or cond > 1e13:
        # numpy drops directions below its own threshold
        ctx.note('ill-conditioned')
        return
    close(yh, want, atol=t, what='fitted values')
    res = Yw - yh
    orth = np.abs(A.T @ res.T)
    check((orth <= (t * X.size).max() * 2).all(), 'residuals are not orthogonal to the polynomials: {}', orth.max())
    if c['noise'] == 0.:
        check(np.abs(res).max() <= t.max(), 'exact data are missed by {}', np.abs(res).max())
    # evaluation
    xs = np.array([X[0] + f * (X[-1] - X[0]) for f in c['pts']])
    pv, pt = evaluate(p2, xs)
    got = np.asarray(pl.interpolate(xs, p)).reshape(pv.shape)
    close(got, pv, atol=pt + 1e-300, what='interpolated values')
    one = np.asarray(pl.interpolate(float(xs[0]), p)).reshape(-1)
    close(one, pv[:, 0], atol=pt[:, 0] + 1e-300, what='interpolated value at a scalar')
    if c['ny']:
        p3 = np.stack([p, 2. * p])
        g3 = np.asarray(pl.interpolate(xs, p3))
        check(g3.shape == (2,) + pv.shape, 'three-dimensional interpolation has shape {}', g3.shape)
        close(g3, np.stack([pv, 2 * pv]), atol=np.stack([pt, 2 * pt]) + 1e-300, what='three-dimensional interpolation')
    # determination coefficient
    R2 = np.atleast_1d(np.asarray(pl.R_squared(X, Yin, p)))
    check(R2.shape == (p2.shape[0],), 'R^2 has shape {}', R2.shape)
    tot = ((Yw - Yw.mean(axis=1, keepdims=True)) ** 2).sum(axis=1)
    for i in range(R2.size):
        if np.sqrt(tot[i]) < 1e-6 * size:
            continue
        w = 1. - (res[i] ** 2).sum() / tot[i]
        e = 4 * t.max() * np.sqrt(X.size / tot[i]) + 1e-12
        close(R2[i], w, atol=e, what='R^2')
        check(R2[i] <= 1. + e, 'R^2 = {}', R2[i])
    ctx.interesting(deg >= 1 and X.size > deg + 1)


# --- minima -------------------------------------------------------------------------------------------------------------
@st.composite
def min_case(draw):
    kind = draw(st.sampled_from(['one', 'two', 'none', 'any']))
    return {'kind': kind, 'c0': draw(st.floats(-1000., 1000.)), 'scale': 10. ** draw(st.one_of(st.floats(-4., 3.), st.floats(-15., 3.))),
            'mid': draw(st.sampled_from([0., 10., 40., 300., 2500.])), 'r': sorted(draw(st.lists(st.integers(-300, 300).map(lambda x: x / 100.), min_size=3, max_size=3))),
            'im': draw(st.one_of(st.floats(0.2, 3.), st.floats(-4., 0.).map(lambda e: 10. ** e))), 'coef': draw(st.lists(st.integers(-500, 500), min_size=3, max_size=6).map(lambda l: [x / 100. for x in l[:-1]] + [(l[-1] or 1) / 100.])),
            'add': draw(st.sampled_from([None, 0., 1.3, -0.7]))}


def min_body(c, ctx):
    P = np.polynomial.polynomial.Polynomial
    r = c['r']
    if c['mid'] and c['im'] < 0.2:       # nearly an inflection: rounding decides far from the origin
        c = dict(c, mid=0.)
    if c['kind'] == 'one':       # derivative: one real root, two complex
        d = P.fromroots([r[0]]) * P([r[1] ** 2 + c['im'] ** 2, -2 * r[1], 1.])
    elif c['kind'] == 'two':
        if min(np.diff(r)) < 0.1:
            return
        d = P.fromroots(r)
    elif c['kind'] == 'none':
        d = P([r[1] ** 2 + c['im'] ** 2, -2 * r[1], 1.])
    else:
        d = P(c['coef'])
    d = P(d.coef * c['scale'])
    h = 250. if c['mid'] > 1000. else 1.
    d = d(P([-c['mid'] / h, 1. / h]))            # shift
    add = None if c['add'] is None else c['add'] * c['scale']
    f = (d - (add or 0.)).integ(k=c['c0'])
    par = f.coef.copy()
    keep = par.copy()
    m = np.asarray(pl.find_polynomial_minimum(par, add))
    check(np.array_equal(par, keep), 'the coefficients were modified')
    expect = None
    if c['kind'] == 'one':
        expect = [h * r[0] + c['mid']]
    elif c['kind'] == 'two':
        expect = [h * r[0] + c['mid'], h * r[2] + c['mid']]
    elif c['kind'] == 'none':
        expect = []
    sl = np.abs(d.coef) @ (np.abs(c['mid']) + 3.) ** np.arange(d.coef.size)
    for v in m:
        check(np.isreal(v), 'minimum {}', v)
        check(abs(d(v)) <= 1e-9 * np.abs(d.coef) @ (np.abs(v) + 1.) ** np.arange(d.coef.size), 'slope {} at the minimum {}', d(v), v)
        check(f.deriv(2)(v) > 0, 'curvature {} at the minimum {}', f.deriv(2)(v), v)
    if expect is not None:
        tol = 1e-3 * h if c['mid'] > 100 else 1e-5
        check(len(m) == len(expect), 'minima {} instead of {}', m.tolist(), expect)
        close(np.sort(m), np.array(expect), atol=tol, what='minima')
    ctx.note(c['kind'])
    ctx.interesting(True)


# --- small helpers -----------------------------------------------------------------------------------------------------
@st.composite
def small_case(draw):
    return {'m': draw(st.lists(st.floats(-50., 50.), min_size=9, max_size=9)), 'th': draw(st.floats(-7., 7.)),
            'ph': draw(st.floats(-7., 7.)), 'X': draw(abscissae(2, 12)), 'p': draw(st.lists(st.integers(-400, 400).map(lambda x: x / 100.), min_size=2, max_size=4)),
            'even': draw(st.booleans())}


def small_body(c, ctx):
    M = np.array(c['m']).reshape(3, 3)
    K = M.copy()
    C = np.asarray(fm.cofactor(M), dtype=float)
    check(C.shape == (3, 3), 'cofactor of a 3x3 matrix has shape {}', C.shape)
    check(np.array_equal(K, M), 'the matrix was modified')
    s = np.abs(M).max() ** 2 + 1e-300
    want = np.array([[(-1) ** (i + j) * np.linalg.det(np.delete(np.delete(M, i, 0), j, 1)) for j in range(3)] for i in range(3)])
    close(C, want, atol=1e-13 * s, what='cofactors')
    t, p = c['th'], c['ph']
    close(np.asarray(fm.vector(t, p)), [np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)], atol=1e-15, what='direction')
    X = np.array(c['X'])
    if c['even']:
        X = np.linspace(X[0], X[-1], X.size)
    z = (X - X[0]) / (X[-1] - X[0])
    h = X[-1] - X[0]
    Y = np.polynomial.polynomial.polyval(z, c['p'])
    D = np.asarray(derivative(X, Y))
    check(D.shape == X.shape, 'derivative has shape {}', D.shape)
    want = np.array([(Y[min(i + 1, X.size - 1)] - Y[max(i - 1, 0)]) / (X[min(i + 1, X.size - 1)] - X[max(i - 1, 0)]) for i in range(X.size)])
    close(D, want, rtol=1e-10, atol=1e-12 * np.abs(Y).max() / np.diff(X).min(), what='derivative')
    if len(c['p']) == 2:
        close(D, np.full(D.shape, c['p'][1] / h), rtol=1e-9, atol=1e-12 * np.abs(Y).max() / np.diff(X).min(), what='derivative of a straight line')
    if c['even'] and len(c['p']) == 3 and X.size > 2:
        close(D[1:-1], (c['p'][1] + 2 * c['p'][2] * z[1:-1]) / h, rtol=1e-9, atol=1e-11 * (np.abs(c['p']).max() + 1) / np.diff(X).min(),
              what='derivative of a parabola')
    ctx.interesting(True)


SUBS = [Sub('fits', fit_case, fit_body, quick=400, thorough=20000, shards=(4, 8)),
        Sub('minima', min_case, min_body, quick=500, thorough=30000, shards=(2, 8)),
        Sub('small', small_case, small_body, quick=400, thorough=20000, shards=(2, 8))]
