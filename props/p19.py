"""P19: pressure-volume data files."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, check, close, fail

RULE = ('Generated: data files with any subset and order of the declared columns (P, V, a, b, c and their uncertainties in '
        'the long and short spelling, any letter case, columns Quantas does not know), any layout (comments, blank lines, '
        'indentation, tabs, titles that look like keywords, optional title, number formats), read one after the other in '
        'one process; and the same files with one thing broken. Non-trivial: more than two columns, not in P V order, or a '
        'broken file.')
ASSUMPTIONS = ['rows longer than FORMAT and text after the numbers of a row are not specified']

CANON = ['p', 'v', 'a', 'b', 'c', 'sigmap', 'sigmav', 'sigmaa', 'sigmab', 'sigmac']
SPELL = {'p': ['P', 'p'], 'v': ['V', 'v'], 'a': ['a', 'A'], 'b': ['b', 'B'], 'c': ['c', 'C']}
for q in 'pvabc':
    SPELL['sigma' + q] = ['sigma' + q, 'sigma' + q.upper(), 'SIGMA' + q.upper(), 'Sigma' + q, 'sig' + q,
                          'SIG' + q.upper(), 'sig' + q.upper()]
FILL = ['', '   ', '# a comment', '  # DATA', '\t', '#FORMAT P V', '# 1.0 2.0 3.0', '#']
TITLES = ['Quartz (Angel et al., 2000)', 'data of topaz', 'Format unknown', 'JOB', 'x', '  indented title', 'Data', '1.0 2.0',
          'Unknown', 'FORMAT P V', 'caf\u00e9 100%', 'P V sigmaP', 'quartz #2', 'alpha # beta', 'a/b: "c"; d', "it's 50% {0} \\ n", 'a & b']


@st.composite
def filecase(draw):
    struct = draw(st.lists(st.sampled_from('vabc'), min_size=1, max_size=4, unique=True))
    sig = draw(st.lists(st.sampled_from(['sigma' + q for q in ['p'] + struct]), max_size=4, unique=True))
    keys = ['p'] + struct + sig
    extra = draw(st.lists(st.sampled_from(['T', 'sigmaT', 'alpha', 'beta', 'n']), max_size=2, unique=True))
    cols = draw(st.permutations([[k, draw(st.sampled_from(SPELL[k]))] for k in keys] + [[None, e] for e in extra]))
    n = draw(st.one_of(st.integers(1, 3), st.integers(4, 25), st.integers(4, 25), st.sampled_from([60, 130, 1100])))
    fmt = draw(st.sampled_from(['%.6f', '%.10E', '%r', '%.3f', '%+.4f', '%d']))
    seed = draw(st.integers(0, 2 ** 31 - 1))
    return {'cols': [list(c) for c in cols], 'n': n, 'fmt': fmt, 'seed': seed,
            'sep': draw(st.sampled_from([' ', '   ', '\t', ' \t '])), 'indent': draw(st.sampled_from(['', '  ', '\t'])),
            'trail': draw(st.sampled_from(['', ' ', '  '])),
            'title': draw(st.one_of(st.none(), st.sampled_from(TITLES))),
            'case': draw(st.sampled_from(['upper', 'lower', 'title'])),
            'jobpos': draw(st.sampled_from(['first', 'after format'])),
            'fill': draw(st.lists(st.lists(st.sampled_from(FILL), max_size=2), min_size=8, max_size=8)),
            'fillrows': draw(st.booleans()), 'newline': draw(st.booleans()), 'crlf': draw(st.sampled_from([False, False, True]))}


def numbers(c):
    """text of the table"""
    rng = np.random.RandomState(c['seed'])
    base = rng.uniform(0.5, 900., (c['n'], len(c['cols'])))
    neg = rng.uniform(size=base.shape) < 0.1
    base[neg] *= -1.
    f = c['fmt']
    return [[(f % float(x)) if f != '%d' else '%d' % round(x) for x in row] for row in base]


def case_of(c, word):
    return {'upper': word.upper(), 'lower': word.lower(), 'title': word.title()}[c['case']]


def lines_of(c, rows):
    f = [list(x) for x in c['fill']]
    job = [] if c['title'] is None else [case_of(c, 'job')] + f[0] + [c['title']]
    # no comment between FORMAT and its value (documentation)
    form = [c['indent'] + case_of(c, 'format'), c['indent'] + c['sep'].join(x[1] for x in c['cols']) + c['trail']]
    head = f[1] + job + f[2] + form if c['jobpos'] == 'first' else f[1] + form + f[2] + job
    body = [case_of(c, 'data')] + f[3]
    for i, r in enumerate(rows):
        body.append(c['indent'] + c['sep'].join(r) + c['trail'])
        if c['fillrows'] and i % 3 == 1:
            body += f[4]
    return head, body + f[5]


def write(c, path, lines):
    end = '\r\n' if c['crlf'] else '\n'
    with open(path, 'w', newline='', encoding='utf-8') as f:
        f.write(end.join(lines) + (end if c['newline'] else ''))


def content(rd):
    return {k: (None if v is None else np.array(v)) for k, v in rd.data.items() if k != 'job'}


PROPS = {'p': 'pressure', 'v': 'volume', 'a': 'a', 'b': 'b', 'c': 'c', 'sigmap': 'sigma_p', 'sigmav': 'sigma_v',
         'sigmaa': 'sigma_a', 'sigmab': 'sigma_b', 'sigmac': 'sigma_c'}


def verify(c, rd, rows, what):
    check(rd.completed and rd.error is None, '{}file rejected: {!r}', what, rd.error)
    t = np.array([[float(x) for x in r] for r in rows])
    want = {k: None for k in CANON}
    for j, (k, _) in enumerate(c['cols']):
        if k is not None:
            want[k] = t[:, j]
    for k in CANON:
        got = getattr(rd, PROPS[k])
        if want[k] is None:
            check(got is None, '{}{} should be absent, is {}', what, k, got)
        else:
            check(got is not None, '{}{} was not read (columns {})', what, k, [x[1] for x in c['cols']])
            check(isinstance(got, np.ndarray) and np.array_equal(got, want[k]), '{}{} read as {} instead of {}', what, k, got,
                  want[k])
    title = 'Unknown' if c['title'] is None else c['title']
    check(rd.jobname.strip() == title.strip(), '{}title read as {!r} instead of {!r}', what, rd.jobname, title)


@st.composite
def good(draw):
    return {'files': [draw(filecase()) for _ in range(draw(st.integers(1, 3)))]}


def good_body(case, ctx):
    from quantas.IO.eos_reader import EoSInputFileReader
    done = []
    for i, c in enumerate(case['files']):
        rows = numbers(c)
        head, body = lines_of(c, rows)
        path = os.path.join(ctx.scratch, 'f%d.dat' % i)
        write(c, path, head + body)
        rd = EoSInputFileReader(path)
        verify(c, rd, rows, 'file %d: ' % (i + 1))
        done.append((c, rd, rows))
        ctx.interesting(len(c['cols']) > 2 or c['cols'][0][0] != 'p')
        ctx.note('%d columns' % len(c['cols']))
    for i, d in enumerate(done):
        verify(d[0], d[1], d[2], 'file %d after the others were read: ' % (i + 1))
    # the calculator keeps what the reader read
    from quantas.eosfit.eosfit import EoSFitCalculator
    calc = EoSFitCalculator({'lenght_unit': 'A', 'pressure_unit': 'GPa', 'logfile': os.path.join(ctx.scratch, 'l')})
    calc.silent = True
    err = calc.read_input(path)
    if len(done[-1][1].pressure) < 4 and isinstance(err, str):
        ctx.note('too few for a fit')
        return
    check(err is None, 'the calculation rejects the file: {!r}', err)
    verify(done[-1][0], calc.input, done[-1][2], 'calculation: ')


BREAK = ['no format', 'format after data', 'no pressure', 'short row', 'bad number', 'no data', 'empty data', 'cut at format',
         'no structure', 'format without value', 'empty file']


@st.composite
def bad(draw):
    return {'file': draw(filecase()), 'how': draw(st.sampled_from(BREAK)), 'row': draw(st.integers(0, 24)),
            'col': draw(st.integers(0, 20)), 'junk': draw(st.sampled_from(['abc', '1.0.0', '--', '1,5', 'nanometer', '1e', '3.4*', 'nan', '-inf'])),
            'before': draw(st.booleans())}


def bad_body(case, ctx):
    from quantas.eosfit.eosfit import EoSFitCalculator
    from quantas.IO.eos_reader import EoSInputFileReader
    c, how = dict(case['file']), case['how']
    if case['before']:      # a good file read first must not hide the problem
        p0 = os.path.join(ctx.scratch, 'ok.dat')
        h, b = lines_of(c, numbers(c))
        write(c, p0, h + b)
        EoSInputFileReader(p0)
    if c['title'] is not None and how in ('no format', 'no data', 'cut at format', 'format without value'):
        c['title'] = 'plain title'
    if how == 'no pressure':
        c['cols'] = [x for x in c['cols'] if x[0] != 'p']
    if how == 'no structure':
        c['cols'] = [x for x in c['cols'] if x[0] in ('p', 'sigmap', None)]
    rows = numbers(c)
    i = case['row'] % len(rows)
    known = [j for j, x in enumerate(c['cols']) if x[0] is not None]
    if how == 'short row':
        rows[i] = rows[i][:known[case['col'] % len(known)]]
        if not rows[i]:     # an empty line is skipped: the row must have something
            rows[i] = ['x']
    if how == 'bad number':
        rows[i][known[case['col'] % len(known)]] = case['junk']
    if how == 'empty data':
        rows = []
    head, body = lines_of(c, rows)
    k = [n for n, l in enumerate(head) if l.strip().lower() == 'format' and
         n + 1 < len(head) and head[n + 1].split() == [x[1] for x in c['cols']]][-1]
    if how == 'no format':
        del head[k:k + 2]
    if how == 'format after data':
        moved = head[k:k + 2]
        del head[k:k + 2]
        body = body + moved
    if how == 'format without value':
        body, head = [], head[:k + 1]
    if how == 'cut at format':
        body, head = [], head[:k + 2]
    if how == 'no data':
        body = body[1:] if case['col'] % 2 else []
    lines = [] if how == 'empty file' else head + body
    path = os.path.join(ctx.scratch, 'bad.dat')
    write(c, path, lines)
    calc = EoSFitCalculator({'lenght_unit': 'A', 'pressure_unit': 'GPa', 'logfile': os.path.join(ctx.scratch, 'l')})
    calc.silent = True
    try:
        err = calc.read_input(path)
    except Exception as e:
        fail('{}: {}: {} instead of an explanation\n{}', how, type(e).__name__, e, '\n'.join(lines))
    check(isinstance(err, str) and len(err.strip()) > 5, '{}: accepted (answer {!r})\n{}', how, err, '\n'.join(lines))
    rd = EoSInputFileReader(path)
    if how != 'no structure':
        check(not rd.completed and isinstance(rd.error, str), '{}: reader completed={} error={!r}', how, rd.completed, rd.error)
    ctx.note(how)
    ctx.interesting(True)


SUBS = [
    Sub('good', good, good_body, quick=500, thorough=8000, shards=(2, 6), hang=20, hang_violation=True),
    Sub('bad', bad, bad_body, quick=500, thorough=6000, shards=(2, 6), hang=20, hang_violation=True),
]
