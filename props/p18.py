"""P18: elastic input files."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, check, close, fail

RULE = ('Generated: symmetric 6x6 matrices written in full, upper- and lower-triangular form, with and without title and '
        'density, any spacing and number style, several files read in one process; and files with one thing broken (element '
        'missing, extra, not a number, asymmetric pair, row missing or repeated, bad density, cut short). Non-trivial: '
        'triangular forms, several files, broken files.')
ASSUMPTIONS = ['a first line made only of numbers is a row of the matrix, anything else is the title',
               'a blank first line is outside the format (the existing test suite expects an IndexError)',
               'the first word after the matrix is the density: a repeated last row, or a density in place of the last row of '
               'an upper-triangular matrix, is itself a well-formed file',
               'asymmetries below 1e-3 count as rounding']

FORMS = {'full': lambda i: range(6), 'upper': lambda i: range(i, 6), 'lower': lambda i: range(i + 1)}
TITLES = ['Periclase (MgO) SOEC', '3C-SiC', '2 formula units', 'x', 'Hydroxylapatite ', '  indented', '-', '# comment',
          '100 GPa data', 'caf\u00e9', '1,5', 'C11 = 5', '12.5 GPa', 'quartz #2', 'alpha # beta', 'a/b: "c", d;e', "it's 50% {0} \\ n",
          'x!y ! z', 'a & b', 'end']


@st.composite
def filecase(draw):
    return {'seed': draw(st.integers(0, 2 ** 31 - 1)), 'form': draw(st.sampled_from(sorted(FORMS))),
            'title': draw(st.one_of(st.none(), st.sampled_from(TITLES))),
            'rho': draw(st.one_of(st.none(), st.floats(0.1, 30000.), st.sampled_from([3513., 3178., 1e3]))),
            'rhofmt': draw(st.sampled_from(['%r', '%.3f', '%.6E', '  %.2f  '])),
            'fmt': draw(st.sampled_from(['%r', '%.4f', '%12.4f', '%.8E', '%+.3f', '%d'])),
            'sep': draw(st.sampled_from([' ', '   ', '\t'])), 'indent': draw(st.booleans()),
            'zeros': draw(st.sampled_from([0., 0.4])), 'trail': draw(st.sampled_from(['', ' ', '  \t'])),
            'end': draw(st.sampled_from(['', '\n', '\n\n', '\n  \n'])), 'crlf': draw(st.sampled_from([False, False, True])),
            'neg': draw(st.booleans())}


def rows_of(c):
    rng = np.random.RandomState(c['seed'])
    A = rng.uniform(-100., 300., (6, 6))
    A[rng.uniform(size=(6, 6)) < c['zeros']] = 0.
    A = np.triu(A) + np.triu(A, 1).T
    A[range(6), range(6)] = np.abs(A.diagonal()) + 10.
    if c['neg']:
        A[0, 0] *= -1.
    txt = [[c['fmt'] % (float(x) if c['fmt'] != '%d' else int(round(x))) for x in r] for r in A]
    M = np.array([[float(x) for x in r] for r in txt])
    return M, [[txt[i][j] for j in FORMS[c['form']](i)] for i in range(6)]


def lines_of(c, rows):
    out = [] if c['title'] is None else [c['title']]
    for i, r in enumerate(rows):
        out.append(('          ' * i if c['indent'] and c['form'] == 'upper' else '') + c['sep'].join(r) + c['trail'])
    return out


def write(c, path, lines):
    e = '\r\n' if c['crlf'] else '\n'
    with open(path, 'w', newline='', encoding='utf-8') as f:
        f.write(e.join(lines) + c['end'].replace('\n', e))


def verify(c, rd, what):
    M, _ = rows_of(c)
    check(rd.completed and rd.error is None, '{}{} form rejected: {!r}', what, c['form'], rd.error)
    got = rd.stiffness
    check(isinstance(got, np.ndarray) and got.shape == (6, 6), '{}stiffness {!r}', what, got)
    check(np.array_equal(got, M), '{}{} form read as\n{}\ninstead of\n{}', what, c['form'], got, M)
    rho = 0. if c['rho'] is None else float(c['rhofmt'] % c['rho'])
    check(rd.density == rho, '{}density read as {} instead of {}', what, rd.density, rho)
    title = 'Unknown' if c['title'] is None else c['title']
    check(rd.jobname.strip() == title.strip(), '{}title read as {!r} instead of {!r}', what, rd.jobname, title)


@st.composite
def good(draw):
    return {'files': [draw(filecase()) for _ in range(draw(st.integers(1, 3)))]}


def good_body(case, ctx):
    from quantas.IO.soec_reader import SOECInputFileReader
    from quantas.soec.soec import SOECCalculator
    done = []
    for i, c in enumerate(case['files']):
        path = os.path.join(ctx.scratch, 'f%d.dat' % i)
        _, rows = rows_of(c)
        write(c, path, lines_of(c, rows) + ([] if c['rho'] is None else [c['rhofmt'] % c['rho']]))
        rd = SOECInputFileReader(path)
        verify(c, rd, 'file %d: ' % (i + 1))
        done.append((c, rd))
        ctx.note(c['form'])
        ctx.interesting(c['form'] != 'full' or i > 0)
    for i, (c, rd) in enumerate(done):
        verify(c, rd, 'file %d after the others were read: ' % (i + 1))
    calc = SOECCalculator({'polar': False, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa',
                           'plotting': False, 'outfig': None, 'dpi': 80})
    M, _ = rows_of(c)
    if abs(np.linalg.det(M / 100.)) > 1e-8:
        err = calc.read_input(path)
        check(err is None, 'calculation refuses the file: {!r}', err)
        check(np.array_equal(calc.soec.stiffness, M), 'stiffness of the calculation differs')
        check(calc.soec.density == rd.density, 'density of the calculation differs')


BREAK = ['missing element', 'extra element', 'not a number', 'asymmetric', 'missing row', 'repeated row', 'bad density',
         'cut', 'empty', 'blank row', 'not finite']


@st.composite
def bad(draw):
    return {'file': draw(filecase()), 'how': draw(st.sampled_from(BREAK)), 'i': draw(st.integers(0, 5)),
            'j': draw(st.integers(0, 5)), 'junk': draw(st.sampled_from(['abc', '--', '1.0.0', '1,5', '*****', 'C11', '1.0D+02'])),
            'at': draw(st.sampled_from([0, -1, 1])), 'd': draw(st.sampled_from([0.01, -0.02, 0.1, 5., -40.])), 'before': draw(st.booleans())}


def bad_body(case, ctx):
    from quantas.IO.soec_reader import SOECInputFileReader
    from quantas.soec.soec import SOECCalculator
    c, how, i = dict(case['file']), case['how'], case['i']
    if case['before']:
        p0 = os.path.join(ctx.scratch, 'ok.dat')
        write(c, p0, lines_of(c, rows_of(c)[1]))
        SOECInputFileReader(p0)
    if c['title'] is None and how in ('blank row', 'missing element', 'not a number') and i == 0:
        c['title'] = 'a title'     # otherwise the broken row is a title or a blank first line
    if how == 'asymmetric':
        c['form'] = 'full'
        c['fmt'] = '%.4f'
    if how == 'repeated row' and i == 5:
        i = 4
    if how in ('missing row', 'missing element', 'blank row', 'cut') and c['form'] == 'upper' and i == 5:
        c['rho'] = None
    M, rows = rows_of(c)
    j = case['j'] % len(rows[i])
    if how == 'missing element':
        del rows[i][j]
    if how == 'extra element':
        at = len(rows[i]) if case['at'] == -1 else min(case['at'], len(rows[i]))
        rows[i].insert(at, rows[i][j])
    if how == 'not a number':
        rows[i][j] = case['junk']
    if how == 'not finite':
        rows[i][j] = ['nan', 'inf', '-inf'][case['at'] % 3]
    if how == 'asymmetric':
        k = case['j'] if case['j'] != i else (i + 1) % 6
        rows[i][k] = '%.4f' % (float(rows[i][k]) + case['d'])
    if how == 'missing row':
        del rows[i]
    if how == 'repeated row':
        rows.insert(i, list(rows[i]))
        if c['form'] == 'full':
            A = np.array([[float(x) for x in r] for r in rows[:6]])
            if np.abs(A - A.T).max() < 0.05:
                ctx.note('repetition goes unnoticed, left out')
                return
    if how == 'blank row':
        rows.insert(i, []) if case['at'] == 1 and i > 0 else rows.__setitem__(i, [])
    rho = [] if c['rho'] is None else [c['rhofmt'] % c['rho']]
    if how == 'bad density':
        rho = [case['junk']]
    lines = lines_of(c, rows) + rho
    if how == 'cut':
        lines = lines[:(1 if c['title'] is not None else 0) + i]
    if how == 'empty':
        lines = []
    path = os.path.join(ctx.scratch, 'bad.dat')
    write(c, path, lines)
    if not lines or not lines[0].strip():
        if how != 'empty':
            return
    calc = SOECCalculator({'polar': False, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa',
                           'plotting': False, 'outfig': None, 'dpi': 80})
    if how == 'empty':
        c['end'] = ''
        write(c, path, lines)
    try:
        err = calc.read_input(path)
        rd = SOECInputFileReader(path)
    except Exception as e:
        fail('{}: {}: {} instead of an explanation\n{}', how, type(e).__name__, e, '\n'.join(lines))
    check(isinstance(err, str) and len(err) > 5, '{}: accepted ({!r})\n{}', how, err, '\n'.join(lines))
    check(not rd.completed and isinstance(rd.error, str), '{}: completed={} error={!r}', how, rd.completed, rd.error)
    ctx.note(how)
    ctx.interesting(True)


SUBS = [Sub('good', good, good_body, quick=500, thorough=8000, shards=(2, 6), hang=20),
        Sub('bad', bad, bad_body, quick=700, thorough=8000, shards=(2, 6), hang=20)]
