"""P13: extrema of directional elastic properties, read from the report of complete runs."""
import os
import re
import numpy as np
from hypothesis import strategies as st
from click.testing import CliRunner
from vlib import elastic as el
from vlib.core import Sub, check, close, fail

RULE = ('Generated: positive-definite tensors of every crystal system with a density, analysed by the command line; the report '
        'is compared with the property over 20000 directions (transverse extremes solved exactly). Non-trivial: anisotropic.')
ASSUMPTIONS = ['extrema come from a grid search with refinement: the directions of a regular scan (7.5 degrees, 10 degrees for the '
               'properties that also depend on a transverse direction) are bounded to the digits of the report, arbitrary ones within 3% '
               'of the range of the property for smooth properties, 6% for P waves, 15% for properties with a transverse direction and '
               '20% for S waves, whose extrema may be cusps at acoustic axes (largest misses in 1000 crystals: 0.7%, 1.6%, 7.7%, 7.4%)',
               'the report has four decimals']

N = el.sphere(20000)


def scan(k):
    a = np.linspace(0., np.pi, k)
    return np.array([el.unit(t, p) for t in a for p in a])


SCAN2 = scan(25)
SCAN3 = np.array([el.unit(t, p) for t in np.linspace(0., np.pi, 19) for p in np.linspace(0., np.pi, 19) for c in range(19)])
SCANM = np.array([el.transverse(t, p, c) for t in np.linspace(0., np.pi, 19) for p in np.linspace(0., np.pi, 19)
                  for c in np.linspace(0., np.pi, 19)])


def numbers(line):
    body = line.split('|', 1)[1]
    out = []
    for w in re.split(r'[\s|]+', body.strip()):
        try:
            out.append(float(w))
        except ValueError:
            return None
    return out


def tables(text):
    """{first header word group: {'Values':..., 'Anisotropy':..., 'axes': [...]}}"""
    out = []
    cur = None
    for l in text.splitlines():
        if l.startswith('Notes:'):
            cur = None
        if '|' not in l:
            continue
        if "Young's modulus" in l or 'Shear modulus' in l or 'V_s1' in l:
            cur = {'axes': []}
            out.append(cur)
            continue
        v = numbers(l)
        if cur is None or v is None or not v:
            continue
        label = l.split('|')[0].strip()
        if label in ('Values', 'Anisotropy'):
            cur[label] = v
        else:
            cur['axes'].append(v)
    return out


def analyse(C, rho, scratch, title='crystal', args=(), name='c.dat'):
    """run the command line; (log text, CliRunner result, hdf5 path)"""
    from quantas.cmdline.commands.cmd_quantas import cli
    path = os.path.join(scratch, name)
    with open(path, 'w') as f:
        f.write(el.soec_text(C, title, rho))
    r = CliRunner().invoke(cli, ['soec', path, '-o', os.path.join(scratch, 'out')] + list(args))
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        fail('the run stopped with {!r}', r.exception)
    return open(os.path.join(scratch, 'out.txt')).read(), r, os.path.join(scratch, 'out.hdf5')


@st.composite
def case(draw):
    c = draw(el.tensors(spread=0.9, neg=True))
    c['rho'] = draw(st.floats(500., 12000.))
    return c


def one(what, vals, aniso, lo, hi, slack, scanned):
    """reported pair against the sampled one"""
    mn, mx = vals
    rng = hi - lo
    tol = 1.5e-4 + 1e-6 * np.abs(scanned).max()
    check(mn <= scanned.min() + tol, '{}: reported minimum {}, a direction of the scan has {}', what, mn, scanned.min())
    check(mx >= scanned.max() - tol, '{}: reported maximum {}, a direction of the scan has {}', what, mx, scanned.max())
    tol = slack * rng + 1e-3 * max(abs(lo), abs(hi)) + 1e-4
    check(mn <= mx + 1.5e-4, '{}: minimum {} above maximum {}', what, mn, mx)
    check(mn <= lo + tol, '{}: reported minimum {}, a direction has {}', what, mn, lo)
    check(mx >= hi - tol, '{}: reported maximum {}, a direction has {}', what, mx, hi)
    if mn > 0.02:
        close(aniso, mx / mn, rtol=6e-5 / mn + 6e-5 / mx, atol=1e-4, what=what + ' anisotropy')
    elif mn < -1e-4:
        check(np.isinf(aniso), '{}: anisotropy {} although the minimum is {}', what, aniso, mn)


def attained(what, value, got, lo, hi):
    close(got, value, atol=3e-3 * (hi - lo) + 3e-4 * abs(value) + 1e-4, what=what + ' at the reported direction')


def body(c, ctx):
    C = el.make(c)
    if not el.stable(C, 5e-3):
        ctx.note('unstable, left out')
        return
    rho = c['rho']
    log, r, h5 = analyse(C, rho, ctx.scratch, args=['-q'])
    check(os.path.exists(h5), 'no result file: {}', log[-300:])
    t = tables(log)
    check(len(t) == 3, 'the report has {} tables of extrema instead of 3', len(t))
    for k, n in zip(t, (3, 6, 3)):
        check('Values' in k and 'Anisotropy' in k and len(k['axes']) == n, 'incomplete table: {}', k)
    C4, S4 = el.full_c(C), el.compliance(C)
    E, L = el.young(S4, N), el.lincomp(S4, N)
    (g0, g1), (p0, p1) = el.envelope(S4, N)
    w = el.waves(C4, N, rho)
    dirs = []

    def axis(tab, rows, col):
        a = np.array([tab['axes'][i][col] for i in rows])
        close(np.linalg.norm(a), 1., atol=3e-4, what='length of a reported axis')
        dirs.append(a)
        return a / np.linalg.norm(a)
    fw = [lambda n, i=i: el.waves(C4, n, rho)[i] for i in range(3)]
    ws = el.waves(C4, SCAN2, rho)
    single = [("Young's modulus", t[0], 0, E, lambda n: el.young(S4, n), el.young(S4, SCAN2), 0.03),
              ('linear compressibility', t[0], 1, L, lambda n: el.lincomp(S4, n), el.lincomp(S4, SCAN2), 0.03),
              ('slow S velocity', t[2], 0, w[:, 0], fw[0], ws[:, 0], 0.2), ('fast S velocity', t[2], 1, w[:, 1], fw[1], ws[:, 1], 0.2),
              ('P velocity', t[2], 2, w[:, 2], fw[2], ws[:, 2], 0.06)]
    for what, tab, k, sample, f, scanned, slack in single:
        lo, hi = sample.min(), sample.max()
        vals = tab['Values'][2 * k:2 * k + 2]
        one(what, vals, tab['Anisotropy'][k], lo, hi, slack, scanned)
        for j in range(2):
            n = axis(tab, range(3), 2 * k + j)
            attained(what + [' minimum', ' maximum'][j], vals[j], f(n), lo, hi)
    for what, k, lo, hi, f in (('shear modulus', 0, g0.min(), g1.max(), el.shear), ("Poisson's ratio", 1, p0.min(), p1.max(), el.poisson)):
        tab = t[1]
        vals = tab['Values'][2 * k:2 * k + 2]
        one(what, vals, tab['Anisotropy'][k], lo, hi, 0.15, f(S4, SCAN3, SCANM))
        for j in range(2):
            n, m = axis(tab, range(3), 2 * k + j), axis(tab, range(3, 6), 2 * k + j)
            close(n @ m, 0., atol=4e-4, what=what + ' angle between the two reported axes')
            m = m - (m @ n) * n
            attained(what + [' minimum', ' maximum'][j], vals[j], f(S4, n, m / np.linalg.norm(m)), lo, hi)
    ctx.note(c['system'])
    ctx.interesting(c['system'] != 'isotropic')


SUBS = [Sub('extrema', case, body, quick=7, thorough=60, shards=(8, 8), hang=300)]
