"""P31: the printed reports of inputs, static equations of state, frequency fits and EoS fits."""
import os
import re
import numpy as np
from scipy.optimize import least_squares
from click.testing import CliRunner
from hypothesis import strategies as st
from vlib import phin
from vlib import qharef as Q
from vlib.core import Sub, check, close, fail
from props.p04 import settings as ha_settings
from props.p08 import TAGS, energy_form, pressure_form

RULE = ('Generated: harmonic and quasi-harmonic input files (3 energy units, 2 lengths, 2 pressures, 4 equations of state or '
        'polynomials, energies with noise of 1e-7 to 3e-4 of K0 V0, volumes in any order), frequencies that polynomials describe well or '
        'badly, EoS files with any subset of the columns and noisy data. Oracle: the data as written; least-squares parameters and '
        'standard errors from an own fit; the mean value theorem for numerical pressures; own determination coefficients; '
        'numerical covariance matrices. Non-trivial: noisy data, several q points, more than one column.')
ASSUMPTIONS = ['value(digits) is the usual notation: the digits are the standard error in units of the last decimal of the value',
               'standard errors are those of the fit with the residual variance estimated from the data']

NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf|-inf'


def lines_of(path):
    with open(path) as f:
        return f.read().splitlines()


def value(lines, label):
    got = [l for l in lines if l.strip().startswith('- ' + label)]
    check(len(got) == 1, 'the line "{}" appears {} times in the report', label, len(got))
    return float(got[0].split()[-1])


def table(lines, ncol):
    """rows made of exactly ncol numbers"""
    out = []
    for l in lines:
        t = l.split()
        if len(t) == ncol and all(re.fullmatch(NUM, x) for x in t):
            out.append([float(x) for x in t])
    return out


@st.composite
def static_case(draw):
    c = draw(Q.crystal(nv=(6, 12)))
    n = len(c['x'])
    c.update(kind=draw(st.sampled_from(['ha', 'qha', 'qha', 'qha'])), eunit=draw(st.sampled_from(['Ha', 'eV', 'Ry'])),
             lunit=draw(st.sampled_from(['A', 'bohr'])), punit=draw(st.sampled_from(['GPa', 'kbar'])),
             eos=draw(st.sampled_from(TAGS)), mini=draw(st.sampled_from(['eos', 'eos', 'poly'])),
             noise=draw(st.one_of(st.just(0.), st.floats(-7., -3.5).map(lambda e: 10. ** e))),
             sc=draw(st.one_of(st.just([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), st.lists(st.lists(st.integers(-2, 3), min_size=3, max_size=3), min_size=3,
                                                                                     max_size=3))),
             nseed=draw(st.integers(0, 2 ** 31 - 1)), job=draw(st.sampled_from(['test', 'MgO bulk 12', 'run-7_b'])), kief=draw(st.booleans()))
    c['order'] = draw(st.one_of(st.just(list(range(n))), st.just(list(range(n))[::-1]), st.permutations(range(n)).map(list)))
    return c


def static_energies(c, V):
    rng = np.random.RandomState(c['nseed'])
    k = c['K0'] * c['V0'] / Q.GPA
    return Q.static(c, V) + c['noise'] * k * rng.standard_normal(V.size)


def own_fit(tag, c, V, E):
    """E0 (hartree), K0 (GPa), K', V0 (A^3) and their standard errors"""
    ek = c['K0'] * c['V0'] / Q.GPA
    e = (E - c['E0']) / ek
    v = V / c['V0']

    def res(p):
        return energy_form(tag, p[0], p[1], p[2], p[3], v) - e
    s = least_squares(res, [0., 1., c['KP'], 1.], jac='3-point', xtol=1e-15, ftol=1e-15, gtol=1e-15, x_scale=[1e-3, 1., 1., 1e-2],
                      max_nfev=500)
    if not np.all(np.isfinite(s.x)):
        return None
    J = s.jac / np.array([1., 1., 1., 1.])
    try:
        cov = np.linalg.inv(J.T @ J) * 2. * s.cost / (v.size - 4)
    except np.linalg.LinAlgError:
        return None
    err = np.sqrt(np.diag(cov))
    f = np.array([ek, c['K0'], 1., c['V0']])
    return s.x * f + np.array([c['E0'], 0., 0., 0.]), err * f, np.sqrt(2. * s.cost / (v.size - 4))


def static_body(c, ctx):
    V = Q.volumes(c)
    E = static_energies(c, V)
    o = c['order']
    cells = abs(int(round(np.linalg.det(c['sc']))))
    if cells == 0:
        c = dict(c, sc=[[2, 0, 0], [0, 1, 0], [0, 0, 1]])
        cells = 2
    text = phin.yaml_text(V[o] * phin.LUNIT[c['lunit']] ** 3, E[o] * phin.EUNIT[c['eunit']], Q.bands(c, V)[:, :, o], c['w'], job=c['job'], supercell=c['sc'])
    path, log = os.path.join(ctx.scratch, 'in.yaml'), os.path.join(ctx.scratch, 'log')
    with open(path, 'w') as f:
        f.write(text)
    kw = dict(energy_unit=c['eunit'], lenght_unit=c['lunit'], logfile=log)
    if c['kind'] == 'ha':
        from quantas.harmonic.harmonic import HACalculator
        calc = HACalculator(ha_settings((0., 300., 100.), **kw))
    else:
        from quantas.qha.qha import QHACalculator
        calc = QHACalculator(Q.settings((0., 100., 100.), (0., 1., 1.), pressure_unit=c['punit'], kieffer=c['kief'], minimization=c['mini'], eos_function=c['eos'], **kw))
    err = calc.read_input(path)
    check(err is None, 'input refused: {}', err)
    calc.report_input_data()
    lines = lines_of(log)
    check('Job: ' + c['job'] in lines, 'the job name is not reported')
    nat, nq, w = c['nat'], c['nq'], np.array(c['w'])
    for label, want in (('Number of volumes', V.size), ('Number of atoms', nat), ('Number of sampled k-points', cells),
                        ('Number of frequencies', 3 * nat * int(w.sum()))):
        check(value(lines, label) == want, '{}: {} reported, {} in the input', label, value(lines, label), want)
    ncol = 2 if c['kind'] == 'ha' else 3
    rows = np.array(table(lines, ncol))
    check(rows.shape == (V.size, ncol), 'table of {} rows of volumes and energies for {} volumes', len(rows), V.size)
    vu, eu = phin.LUNIT[c['lunit']] ** 3, phin.EUNIT[c['eunit']]
    close(rows[:, -2], V[o] * vu, rtol=1e-12, atol=5.01e-7, what='reported volumes')
    close(rows[:, -1], E[o] * eu, rtol=1e-12, what='reported energies')
    ctx.note(c['kind'] + ('' if c['kind'] == 'ha' else ' ' + c['mini']))
    ctx.interesting(c['nq'] > 1 or c['noise'] > 0.)
    if c['kind'] == 'ha':
        return
    check(any('warning' in l.lower() for l in lines) == (c['kief'] and cells > 1), 'warning on acoustic modes with {} cells, requested {}', cells, c['kief'])
    P = rows[:, 0] / phin.PUNIT[c['punit']]
    if c['mini'] == 'poly':
        if o == sorted(o) or o == sorted(o)[::-1]:
            # a difference quotient is the derivative somewhere in the interval
            h = np.linspace(V[0], V[-1], 2001)
            d = -np.gradient(Q.static(c, h), h) * Q.GPA
            slack = 30. * c['noise'] * c['K0'] * c['V0'] / np.diff(V).min() + 1e-3
            for i, k in enumerate(o):
                inside = (h >= V[max(k - 1, 0)] - 1e-9) & (h <= V[min(k + 1, V.size - 1)] + 1e-9)
                lo, hi = d[inside].min(), d[inside].max()
                more = 0.05 * (hi - lo) + slack
                check(lo - more <= P[i] <= hi + more, 'static pressure {} GPa at volume {}; around it, it is between {} and {}', P[i], V[k], lo, hi)
        return
    ref = own_fit(c['eos'], c, V, E)
    if ref is None:
        ctx.note('own fit failed')
        return
    p, s, rms = ref
    rough = (1e-4 + 2e-3 * s[1] / p[1]) * c['K0'] * np.ptp(V / c['V0']) + 2e-3       # the fits differ by rounding only
    if not (np.all(np.isfinite(s)) and 0.3 * c['K0'] < p[1] < 3. * c['K0'] and 1.3 < p[2] < 12. and s[2] < 0.6 and 0.8 < p[3] / c['V0'] < 1.2):
        ctx.note('poorly determined')
        return
    close(P, pressure_form(c['eos'], p[1], p[2], p[3], V[o]), atol=rough, what='static pressures in GPa')
    unit = np.array([eu, phin.PUNIT[c['punit']], 1., vu])
    noisy = c['noise'] > 1e-6
    for j, label in enumerate(['E0', 'K0', "K'", 'V0']):
        got = [re.fullmatch(re.escape(label) + r' = (\S+)\((\S+)\)', l.strip()) for l in lines]
        got = [g for g in got if g]
        check(len(got) == 1, 'parameter {} is reported {} times', label, len(got))
        val, dig = got[0].groups()
        x, sx = p[j] * unit[j], s[j] * unit[j]
        if 'e' in dig or '.' in dig or 'n' in dig:      # written out in full
            e, last = float(dig), 0.
        else:
            last = 10. ** -(len(val.split('.')[1]) if '.' in val else 0)
            e = float(dig) * last
        tol = 1e-2 * sx + 1e-9 * abs(x) + (5e-5 * abs(x) if j else 1e-5 * c['K0'] * c['V0'] / Q.GPA * eu)
        close(float(val), x, atol=tol + 0.51 * last, what='reported ' + label)
        if noisy and rms > 20. * 2.3e-16 * abs(c['E0']) / (c['K0'] * c['V0'] / Q.GPA):
            close(e, sx, rtol=0.02, atol=0.51 * last, what='standard error of {} (printed {}({}))'.format(label, val, dig))
            ctx.note('standard errors compared')


# --- fits of the frequencies --------------------------------------------------------------------------------------------------
@st.composite
def bands_case(draw):
    c = draw(Q.crystal(max_nat=2, nv=(6, 9)))
    c['rough'] = draw(st.sampled_from([0., 1e-3, 0.02, 0.1]))
    c['deg'] = draw(st.sampled_from([2, 3, 4]))
    c['nseed'] = draw(st.integers(0, 2 ** 31 - 1))
    return c


def bands_body(c, ctx):
    from quantas.qha.qha import QHACalculator
    V = Q.volumes(c)
    b = Q.bands(c, V)
    b = b * (1. + c['rough'] * np.random.RandomState(c['nseed']).standard_normal(b.shape))
    path, log = os.path.join(ctx.scratch, 'in.yaml'), os.path.join(ctx.scratch, 'log')
    with open(path, 'w') as f:
        f.write(phin.yaml_text(V, Q.static(c, V), b, c['w']))
    calc = QHACalculator(Q.settings((0., 100., 100.), (0., 1., 1.), qha_scheme='freq', fdeg=c['deg'], logfile=log))
    err = calc.read_input(path)
    check(err is None, 'input refused: {}', err)
    try:
        calc.run()
    except Exception:
        ctx.note('run not completed (not the matter here)')
    lines = lines_of(log) if os.path.exists(log) else []
    check(any('polynomial of order {}'.format(c['deg']) in l for l in lines), 'the order of the polynomials is not reported')
    got, cur, means = {}, None, {}
    for l in lines:
        m = re.match(r'\s*- Band #\s*(\d+)', l)
        if m:
            cur = int(m.group(1))
        m = re.match(r'\s*\* Frequency\s+(\d+): R\^2 = (\S+)\s+(\S+)', l)
        if m:
            got[cur, int(m.group(1))] = (float(m.group(2)), m.group(3))
        m = re.match(r'\s*Averaged R\^2: (\S+)', l)
        if m:
            means[cur] = float(m.group(1))
    nq, nm = b.shape[:2]
    check(len(got) == nq * nm and len(means) == nq, '{} determination coefficients for {} frequencies', len(got), nq * nm)
    first = min(k[0] for k in got)
    for i in range(nq):
        mine = []
        for j in range(nm):
            f = b[i, j]
            tot = ((f - f.mean()) ** 2).sum()
            r2, flag = got[first + i, j + 1]
            if tot < 1e-16 * (f ** 2).sum() or not f.any():
                mine = None
                continue
            res = f - Q.Fit(V, f[None], c['deg'])(V)[0]
            want = 1. - (res ** 2).sum() / tot
            close(r2, want, atol=2e-6, what='R^2 of frequency {} of band {}'.format(j + 1, i))
            if min(abs(want - 0.9), abs(want - 0.8)) > 1e-5:
                check(flag == ('OK' if want >= 0.9 else 'Low' if want >= 0.8 else 'BAD!'), 'R^2 = {} called {}', want, flag)
            ctx.note(flag)
            if mine is not None:
                mine.append(want)
        if mine is not None:
            close(means[first + i], np.mean(mine), atol=2e-6, what='averaged R^2 of band {}'.format(i))
    ctx.interesting(c['rough'] > 0.)


# --- EoS sessions -------------------------------------------------------------------------------------------------------------
@st.composite
def fit_case(draw):
    n = draw(st.integers(6, 14))
    cols = draw(st.lists(st.sampled_from('VABC'), min_size=1, max_size=4, unique=True))
    return {'n': n, 'cols': ''.join(cols), 'q': draw(st.sampled_from(cols)), 'order': draw(st.sampled_from([2, 3])),
            'eos': draw(st.sampled_from(['bm', 'bm', 'vinet', 'ns'])), 'K0': draw(st.floats(20., 300.)), 'KP': draw(st.floats(3., 6.)),
            'V0': draw(st.floats(60., 900.)), 'pmax': draw(st.floats(0.03, 0.15)), 'noise': draw(st.floats(-3.5, -2.).map(lambda e: 10. ** e)),
            'sp': draw(st.one_of(st.none(), st.floats(0.01, 0.5))), 'sq': draw(st.booleans()), 'weights': draw(st.booleans()),
            'seed': draw(st.integers(0, 2 ** 31 - 1)), 'job': draw(st.sampled_from(['test', 'Forsterite run 3'])),
            'perm': draw(st.booleans())}


def fit_body(c, ctx):
    from props import p10
    from quantas.cmdline.commands.cmd_quantas import cli
    rng = np.random.RandomState(c['seed'])
    n = c['n']
    v = 1. - np.linspace(0., c['pmax'], n)
    if c['perm']:
        v = v[rng.permutation(n)]
    KP, KPP = p10.implied('bm', 3, False, c['K0'], c['KP'], 0.)
    P = p10.pressure('bm', c['K0'], KP, KPP, 1., v)
    scale = np.ptp(P)
    P = np.round(P + c['noise'] * scale * rng.standard_normal(n), 6)
    L = np.cbrt(v * c['V0'])
    data = {'V': np.round(v * c['V0'], 6), 'A': np.round(L * 1.01, 6), 'B': np.round(L * 1.3, 6), 'C': np.round(L * 0.7, 6)}
    sp = None if c['sp'] is None else np.round(c['noise'] * scale * (0.5 + rng.uniform(0., 1., n)) + 1e-6, 8)
    q = c['q']
    sq = np.round(np.full(n, 1e-4) * data[q], 8) if c['sq'] else None
    cols, vals = ['P'] + list(c['cols']), [P] + [data[k] for k in c['cols']]
    if sp is not None:
        cols.append('sigmaP'); vals.append(sp)
    if sq is not None:
        cols.append('sigma' + q); vals.append(sq)
    path, log = os.path.join(ctx.scratch, 'eos.dat'), os.path.join(ctx.scratch, 'fitlog')
    with open(path, 'w') as f:
        f.write('JOB\n' + c['job'] + '\nFORMAT\n' + ' '.join(cols) + '\nDATA\n')
        for row in zip(*vals):
            f.write(' '.join('%.10f' % x for x in row) + '\n')
    answers = [q.lower(), p10.KEYS[c['eos']], str(c['order']), 'n', 'n']
    wp = wq = None
    if sp is not None or sq is not None:
        answers.append('y' if c['weights'] else 'n')
        if c['weights']:
            answers += ['y'] * ((sp is not None) + (sq is not None))
            wp, wq = sp, sq
    answers += ['n', 'n', 'n']
    r = CliRunner().invoke(cli, ['eosfit', path, '-o', log], input='\n'.join(answers) + '\n')
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        fail('interactive session failed: {!r} after\n{}', r.exception, r.output[-600:])
    check(r.exit_code == 0 and os.path.exists(log + '.log'), 'exit code {}: {}', r.exit_code, r.output[-500:])
    text = open(log + '.log').read()
    head = text.split('Interactive equation of state fitting started')[0].splitlines()
    check('Job: ' + c['job'] in [l.strip() for l in head], 'the job name is not reported')
    rows = [l.split() for l in head if re.match(r'^\s*-?\d+\.\d{3}\s', l)]
    check(len(rows) == n and all(len(x) == 5 for x in rows), 'table of {} rows for {} data:\n{}', len(rows), n, '\n'.join(head))
    close([float(x[0]) for x in rows], P, atol=5.01e-4, what='pressures of the input table')
    for k, name in enumerate('VABC'):
        if name in c['cols']:
            close([float(x[1 + k]) for x in rows], data[name], atol=5.01e-6, what='column {} of the input table'.format(name))
        else:
            check(all(x[1 + k] == '--' for x in rows), 'column {} is not in the input, reported as {}', name, rows[0][1 + k])
    for word, has in (('pressure', sp is not None), ('volume', sq is not None and q == 'V')) + tuple(
            (k.lower() + '-axis', sq is not None and q == k) for k in 'ABC'):
        check(any('Found weights for ' + word in l for l in head) == has, 'weights for {}: reported is not {}', word, has)
    # the fit
    d = p10.parse_reports(text)
    check(len(d) == 1, '{} fit reports', len(d))
    d = d[0]
    sec = text.split('Fitting parameters:')[1]
    sd = [float(x) for x in re.findall(r'\+/-\s*(\S+)', sec.split('Covariance matrix')[0])]
    cov = [[float(y) for y in x.split()] for x in sec.split('Covariance matrix:')[1].split('Residual')[0].strip().splitlines()]
    check(len(sd) == 4 and np.shape(cov) == (4, 4), 'standard errors {}, covariance {}', sd, cov)
    sd, cov, rv = np.array(sd), np.array(cov), d['resvar']
    lin = q != 'V'
    free = {2: [0, 3], 3: [0, 1, 3]}[c['order']]
    true = {'eos': c['eos'], 'order': c['order'], 'linear': lin}
    X = data[q]
    ref = p10.CLASSES[c['eos']][0]()
    g = [float(x) for x in ref.guess(X, P)]
    out = ref.fit(X.copy(), P.copy(), guess=g, sigmaV=wq, sigmaP=wp, order=c['order'], linear=lin, fixed=[1, 1, 1, 1])
    beta = np.array(out.beta, dtype=float)
    if not np.all(np.isfinite(beta)) or np.max(np.abs(beta)) > 2e4 or beta[0] <= 1.:
        ctx.note('runaway fit')
        return
    close(d['beta'], beta, atol=2e-5 + 1e-4 * np.maximum(1., np.abs(beta)), what='reported parameters')
    # residual variance, covariance matrix and standard errors of the reported solution
    S = np.zeros(n) if wq is None else np.asarray(out.delta, dtype=float)
    KPs, KPPs = p10.implied(c['eos'], c['order'], lin, beta[0], beta[1], beta[2])

    def model(par, x):
        b = beta.copy()
        b[free] = par
        a1, a2 = p10.implied(c['eos'], c['order'], lin, b[0], b[1], b[2])
        return p10.pressure(c['eos'], b[0], a1, a2, b[3], x) if not lin else p10.pressure(c['eos'], b[0], a1, a2, b[3], x)
    w = np.ones(n) if wp is None else 1. / wp
    try:
        eps = (model(beta[free], X + S) - P) * w
    except Exception:
        eps = None
    if eps is not None:
        ss = float(np.sum(eps ** 2) + (0. if wq is None else np.sum((S / wq) ** 2)))
        close(rv, ss / (n - len(free)), rtol=2e-2, atol=6e-5, what='reported residual variance')
        if wq is None:
            J = []
            for k, a in enumerate(free):
                h = 1e-5 * abs(beta[a])
                up, dn = beta[free].copy(), beta[free].copy()
                up[k] += h
                dn[k] -= h
                J.append((model(up, X) - model(dn, X)) * w / (2. * h))
            J = np.array(J).T
            N = J.T @ J
            sc = np.sqrt(np.diag(N))
            cond = np.linalg.cond(N / np.outer(sc, sc))
            if cond < 1e7:
                cv = np.linalg.inv(N / np.outer(sc, sc)) / np.outer(sc, sc)
                size = np.sqrt(np.diag(cv))
                close(cov[np.ix_(free, free)], cv, rtol=1e-4, atol=0.03 * np.outer(size, size), what='reported covariance matrix')
                close(sd[free], np.sqrt(ss / (n - len(free)) * np.diag(cv)), rtol=0.03, atol=1.1e-5, what='reported standard errors')
                ctx.note('covariance compared')
    other = [k for k in range(4) if k not in free]
    rest = cov.copy()
    rest[np.ix_(free, free)] = 0.
    ctx.note('%s %d %s' % (c['eos'], c['order'], 'weighted' if wp is not None or wq is not None else ''))
    ctx.interesting(len(c['cols']) > 1 or wp is not None)


# --- settings -----------------------------------------------------------------------------------------------------------------
RANGES = st.tuples(st.integers(0, 4000), st.integers(0, 4000), st.integers(1, 4000)).map(
    lambda t: (t[0] / 4., (t[0] + t[1]) / 4., t[2] / 4.))


@st.composite
def settings_case(draw):
    o = {'T': st.one_of(st.none(), RANGES), 'eunit': st.sampled_from([None, 'Ha', 'eV', 'Ry']), 'funit': st.sampled_from([None, 'cm-1', 'THz', 'Hz']),
         'vunit': st.sampled_from([None, 'A', 'bohr']), 'tunit': st.sampled_from([None, 'K', 'C'])}
    kind = draw(st.sampled_from(['ha', 'qha', 'qha', 'qha', 'soec', 'eosfit']))
    if kind in ('soec', 'eosfit'):
        return {'kind': kind}
    if kind == 'qha':
        o.update(P=st.one_of(st.none(), RANGES), punit=st.sampled_from([None, 'GPa', 'kbar']), s=st.sampled_from([None, 'freq', 'td']),
                 m=st.sampled_from([None, 'poly', 'eos']), a=st.booleans(), fdeg=st.sampled_from([None, 2, 3, 4, 5]),
                 edeg=st.sampled_from([None, 2, 3, 4, 5]), eos=st.sampled_from([None, 'M', 'BM', 'PT', 'V']))
    return dict({k: draw(v) for k, v in o.items()}, kind=kind)


NAMES = {'M': 'Murnaghan', 'BM': 'Birch', 'PT': 'Tarantola', 'V': 'Vinet'}


def settings_body(c, ctx):
    from quantas.cmdline.commands.cmd_quantas import cli
    path, out = os.path.join(ctx.scratch, 'in.yaml'), os.path.join(ctx.scratch, 'out')
    with open(path, 'w') as f:
        f.write('nothing of use\n')
    argv = [c['kind'], path, '-o', out]
    for k, v in c.items():
        if k == 'kind' or v is None or v is False:
            continue
        argv += [('-' if len(k) == 1 else '--') + k] + ([] if v is True else [str(x) for x in v] if isinstance(v, tuple) else [str(v)])
    r = CliRunner().invoke(cli, argv)
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        fail('{} ended with {!r}', argv, r.exception)
    log = out + ('.log' if c['kind'] == 'eosfit' else '.txt')
    check(os.path.exists(log), 'no report is written')
    rows = {}
    head = ''
    lines = lines_of(log)
    for i, l in enumerate(lines):
        if i and re.fullmatch(r'-{10,}', l.strip()):
            head = lines[i - 1].strip().lower()
        m = re.fullmatch(r'\s*- ([^:]+):\s+(.*\S)\s*', l)
        if m:
            rows[head.split()[0] if head else '', m.group(1).strip()] = m.group(2)

    def row(section, label):
        got = [v for (h, l), v in rows.items() if h == section and l == label]
        check(len(got) == 1, '{} lines "{}" in the {} settings of the report:\n{}', len(got), label, section, rows)
        return got[0]
    if c['kind'] in ('soec', 'eosfit'):
        check(row('measurement', 'pressure') == 'GPa', 'pressure unit')
        return
    for key, sec, u, default in (('T', 'temperature', 'tunit', (298.15, 298.15, 1.)), ('P', 'pressure', 'punit', (0., 0., 1.))):
        if key == 'P' and c['kind'] == 'ha':
            continue
        unit = c[u] or ('K' if key == 'T' else 'GPa')
        check(row('measurement', sec) == unit, '{} reported for --{} {}', row('measurement', sec), u, c[u])
        for label, want in zip(('min', 'max', 'step'), c[key] or default):
            t = row(sec, label).split()
            check(len(t) == 2 and t[1] == unit and abs(float(t[0]) - want) < 5.01e-3, '{} {}: {} reported for {} {}', sec, label, t, want, unit)
    for label, key, default in (('energy', 'eunit', 'Ha'), ('lenght', 'vunit', 'A'), ('frequency', 'funit', 'cm-1')):
        want = c[key] or default
        check(row('measurement', label).replace('^', '') == want, '{} reported for --{} {}', row('measurement', label), key, c[key])
    ctx.interesting(sum(v is not None and v is not False for v in c.values()) > 3)
    if c['kind'] == 'ha':
        return
    get = lambda label: [v for (h, l), v in rows.items() if l == label]
    check(get('scheme') == [{'freq': 'frequency interpolation'}.get(c['s'], 'thermodynamics interpolation')], 'scheme {} reported for {}', get('scheme'), c['s'])
    mini = get('volume minimization')
    check(len(mini) == 1 and mini[0].startswith('Equation' if c['m'] == 'eos' else 'polynomial'), 'minimization {} reported for {}', mini, c['m'])
    eos = get('EoS formulation')
    check((len(eos) == 1 and NAMES[c['eos'] or 'BM'].lower() in eos[0].lower()) if c['m'] == 'eos' else not eos, 'EoS {} reported for {} {}', eos, c['m'], c['eos'])
    kief = [v for (h, l), v in rows.items() if 'Kieffer' in l]
    check(kief == ['Yes' if c['a'] else 'No'], 'Kieffer {} reported for {}', kief, c['a'])
    for label, key in (('energy', 'edeg'), ('frequency', 'fdeg')):
        check(row('polynomial', label) == str(c[key] or 3), 'degree {} reported for --{} {}', row('polynomial', label), key, c[key])


SUBS = [Sub('input', static_case, static_body, quick=250, thorough=5000, shards=(2, 8)),
        Sub('frequencies', bands_case, bands_body, quick=60, thorough=1500, shards=(1, 4)),
        Sub('eosfit', fit_case, fit_body, quick=120, thorough=3000, shards=(2, 8)),
        Sub('settings', settings_case, settings_body, quick=120, thorough=3000, shards=(1, 4))]
