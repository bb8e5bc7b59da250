"""P20: phonon (HA/QHA) input files."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib import phin
from vlib.core import Sub, check, close, fail

RULE = ('Generated: phonon inputs of 1-3 atoms, 1-4 q-point blocks and 1-6 volumes in every documented layout (keywords in any '
        'order, flow or block lists, values separated by commas or spaces, any number format, titles of any text, comments, '
        'unknown keywords, qpoints equal to the number of blocks or to the sum of their weights), read one after the other; the '
        'same inputs with one keyword removed, one count changed or one value damaged; and random byte-level damage. '
        'Non-trivial: more than one volume and q-point, or a damaged file.')
ASSUMPTIONS = ['volumes, energies and frequencies in one file are finite real numbers; titles are single-line']

TITLES = [None, 'MgO Gamma-point frequencies', 'plain', '"quoted: title"', "'a # b'", '12345', '3.5', 'null', '~', '2020-01-01',
          'yes', 'caf\u00e9', '', 'volume', '[ a, b ]', '"  spaces  "', '0x1F', 'MgO  #  with comment']


@st.composite
def inputs(draw, max_nv=6):
    nat = draw(st.integers(1, 3))
    nq = draw(st.integers(1, 4))
    nv = draw(st.integers(1, max_nv))
    if draw(st.sampled_from([False] * 9 + [True])):     # as many modes, q-points and volumes as real crystals have
        nat, nq, nv = draw(st.sampled_from([(1, 60, 2), (40, 1, 2), (5, 12, 3), (1, 1, 45), (1, 120, 1)]))
    wkind = draw(st.sampled_from(['int', 'sum', 'float']))
    w = [draw(st.integers(1, 9)) for _ in range(nq)]
    if wkind == 'float':
        w = [x / 8. for x in w]
    return {'nat': nat, 'nq': nq, 'nv': nv, 'w': w, 'sum': wkind == 'sum', 'seed': draw(st.integers(0, 2 ** 31 - 1)),
            'title': draw(st.sampled_from(TITLES)), 'order': draw(st.permutations(range(7))),
            'fmt': draw(st.sampled_from(['%r', '%.12E', '%16.8f', '%.3e', '%d', '%+.6f'])),
            'list': draw(st.sampled_from(['flow', 'flow', 'block', 'spaces', 'scalar'])),
            'flist': draw(st.sampled_from(['flow', 'flow', 'block', 'spaces', 'scalar'])),
            'label': draw(st.booleans()), 'sub': draw(st.permutations(range(3))), 'qpos': draw(st.sampled_from([True, True, False])), 'sameq': draw(st.sampled_from([0, 0, 0, 1, 2])),
            'comment': draw(st.booleans()), 'extra': draw(st.booleans()), 'dim': draw(st.integers(0, 4)),
            'crlf': draw(st.sampled_from([False, False, True])), 'end': draw(st.booleans())}


DIMS = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[-2, 2, 2], [2, -2, 2], [2, 2, -2]], [[2, 0, 0], [0, 3, 0], [0, 0, 1]],
        [[1, 1, 0], [-1, 1, 0], [0, 0, 4]], [[3, 0, 0], [0, 3, 0], [0, 0, 3]]]
KEYS = ['job', 'natom', 'supercell', 'qpoints', 'volume', 'energy', 'phonon']


def values(c):
    rng = np.random.RandomState(c['seed'])
    f = c['fmt']
    n = lambda x: (f % float(x)).strip() if f != '%d' else '%d' % round(x)
    vol = [n(x) for x in 20. + np.cumsum(rng.uniform(0.5, 3., c['nv']))]
    en = [n(x) for x in -rng.uniform(2., 9000., c['nv'])]
    fr = rng.uniform(-5., 1200., (c['nq'], 3 * c['nat'], c['nv']))
    fr[rng.uniform(size=fr.shape) < 0.05] = 0.
    fr = [[[n(x) for x in r] for r in q] for q in fr]
    return vol, en, fr


def seq(vals, kind, indent):
    """value part of a 'key:' line"""
    if kind == 'scalar' and len(vals) == 1:
        return ' ' + vals[0]
    if kind == 'block':
        return '\n' + '\n'.join(indent + '- ' + v for v in vals)
    if kind == 'spaces':
        return ' [ ' + '  '.join(vals) + ' ]'
    return ' [ ' + ', '.join(vals) + ' ]'


def blocks(c, vol, en, fr, w=None):
    """{key: text}"""
    out = {}
    if c['title'] is not None:
        out['job'] = 'job: ' + c['title']
    out['natom'] = 'natom:   %d' % c['nat'] + ('      # atoms' if c['comment'] else '')
    out['supercell'] = 'supercell:\n' + '\n'.join('- [ %6d, %6d, %6d ]' % tuple(r) for r in DIMS[c['dim']])
    out['qpoints'] = 'qpoints: %d' % (sum(c['w']) if c['sum'] else c['nq'])
    out['volume'] = 'volume:' + seq(vol, c['list'], '')
    out['energy'] = 'energy:' + seq(en, c['list'], '')
    ph = ['phonon:']
    for i in range(c['nq']):
        part = {}
        if c['qpos']:
            part[0] = ['q-position: [ %12.7f, %12.7f, %12.7f ]' % (0.1 * (i // 2 if c['sameq'] == 1 else 0 if c['sameq'] == 2 else i), 0., 0.5)]
        part[1] = ['weight: %s' % (w or c['w'])[i]]
        part[2] = ['band:']
        for j, r in enumerate(fr[i]):
            if c['label']:
                part[2] += ['- # %d' % (j + 1), '  frequency:' + seq(r, c['flist'], '    ')]
            else:
                part[2] += ['- frequency:' + seq(r, c['flist'], '    ')]
        lines = [l for k in c['sub'] if k in part for l in part[k]]
        lines = '\n'.join(lines).split('\n')
        ph += ['- ' + lines[0]] + ['  ' + l for l in lines[1:]]
        if c['comment']:
            ph.append('')
    out['phonon'] = '\n'.join(ph)
    return out


def text_of(c, b):
    order = [KEYS[k] for k in c['order'] if KEYS[k] in b]
    out = []
    if c['comment']:
        out += ['# phonons of a crystal', '']
    for k in order:
        out.append(b[k])
        if c['extra'] and k == 'natom':
            out.append('note: nothing')
    s = '\n'.join(out) + ('\n' if c['end'] else '')
    return s.replace('\n', '\r\n') if c['crlf'] else s


def write(path, s):
    with open(path, 'w', newline='', encoding='utf-8') as f:
        f.write(s)


def title_of(c):
    import yaml
    t = yaml.safe_load('job: ' + c['title'])['job'] if c['title'] is not None else None
    return 'Unknown' if t is None else t


def arr(x):
    return np.array(x, dtype=float)


def verify(c, rd, vals, what, weights=None):
    vol, en, fr = vals
    check(rd.completed and rd.error is None, '{}valid input rejected: {!r}', what, rd.error)
    for got, want, name in [(rd.volume, vol, 'volume'), (rd.energy, en, 'energy')]:
        check(isinstance(got, np.ndarray) and got.shape == (c['nv'],) and np.array_equal(got, arr(want)),
              '{}{} read as {!r} instead of {}', what, name, got, want)
    check(int(rd.natoms) == c['nat'], '{}natom {!r} instead of {}', what, rd.natoms, c['nat'])
    check(int(rd.nvol) == c['nv'], '{}nvol {!r} instead of {}', what, rd.nvol, c['nv'])
    nq = sum(c['w']) if c['sum'] else c['nq']
    check(int(rd.qpoints) == nq, '{}qpoints {!r} instead of {}', what, rd.qpoints, nq)
    det = int(round(np.linalg.det(np.array(DIMS[c['dim']], dtype=float))))
    check(rd.kpoints == det, '{}{} cells in the supercell instead of {}', what, rd.kpoints, det)
    w, f = np.asarray(rd.weights), np.asarray(rd.frequencies)
    ww, ff = arr(c['w']), arr(fr)
    n = c['nq']
    check(w.ndim == 1 and w.size >= n and np.array_equal(w[:n], ww) and not np.any(w[n:]), '{}weights {} instead of {}', what, w,
          ww)
    check(f.shape == (w.size, 3 * c['nat'], c['nv']), '{}frequencies of shape {}', what, f.shape)
    check(np.array_equal(f[:n], ff), '{}frequencies read as {} instead of {}', what, f[:n].tolist(), ff.tolist())
    close(rd.total_q_points, ww.sum(), rtol=1e-12, what=what + 'sum of the weights')
    t = title_of(c)
    got = rd.jobname
    check(isinstance(got, str), '{}title {!r}', what, got)
    if isinstance(t, str):
        check(got == t.rstrip(), '{}title read as {!r} instead of {!r}', what, got, t)


def ha(**kw):
    from quantas.harmonic.harmonic import HACalculator
    from props.p04 import settings
    return HACalculator(settings((0., 300., 100.), **kw))


def qha(**kw):
    from quantas.qha.qha import QHACalculator
    from props.p04 import settings
    s = settings((0., 300., 100.), qha_scheme='freq', minimization='poly', kieffer=False, edeg=3, fdeg=3,
                 eos_function='birchmurnaghan', prange=(0., 0., 1.), pressure_unit='GPa')
    s.update(kw)
    return QHACalculator(s)


@st.composite
def good(draw):
    return {'files': [draw(inputs()) for _ in range(draw(st.integers(1, 3)))], 'reuse': draw(st.booleans())}


def good_body(case, ctx):
    from quantas.IO.qha_reader import QHAInputFileReader
    done = []
    shared = None
    for i, c in enumerate(case['files']):
        vals = values(c)
        path = os.path.join(ctx.scratch, 'g%d.yaml' % i)
        write(path, text_of(c, blocks(c, *vals)))
        rd = QHAInputFileReader(path)
        verify(c, rd, vals, 'file %d: ' % (i + 1))
        done.append((c, rd, vals))
        if case['reuse']:
            if shared is None:
                shared = QHAInputFileReader(path)
            shared.load(path)
            verify(c, shared, vals, 'file %d read by a used reader: ' % (i + 1))
        ctx.interesting(c['nq'] > 1 and c['nv'] > 1)
        for k in ('list', 'fmt'):
            ctx.note(k + ' ' + c[k])
        if c['sum']:
            ctx.note('qpoints is the sum of the weights')
        calc = ha()
        err = calc.read_input(path)
        check(err is None, 'the harmonic calculation rejects the file: {!r}', err)
        verify(c, calc.input, vals, 'harmonic calculation: ')
        calc.report_input_data()
        calc = qha()
        err = calc.read_input(path)
        if c['nv'] < 4:
            check(isinstance(err, str) and err.strip(), 'the quasi-harmonic calculation accepts {} volumes', c['nv'])
        else:
            check(err is None, 'the quasi-harmonic calculation rejects the file: {!r}', err)
            verify(c, calc.input, vals, 'quasi-harmonic calculation: ')
    for i, d in enumerate(done):
        verify(d[0], d[1], d[2], 'file %d after the others were read: ' % (i + 1))


JUNK = ['abc', '1.0.0', '--', '.nan', '.inf', 'null', '[ 1.0, 2.0 ]', '{ a: 1 }', 'true', '""', '1,5x']
HOWS = ['missing key', 'empty key', 'qpoints', 'natom', 'drop band', 'add band', 'drop frequency', 'add frequency', 'drop energy',
        'add energy', 'drop volume', 'bad frequency', 'bad volume', 'bad energy', 'bad weight', 'bad natom', 'bad qpoints',
        'bad supercell', 'missing weight', 'missing band', 'missing frequency', 'add block', 'not an input', 'cut', 'tab']


@st.composite
def bad(draw):
    c = draw(inputs())
    return {'file': c, 'how': draw(st.sampled_from(HOWS)), 'a': draw(st.integers(0, 50)), 'b': draw(st.integers(0, 50)),
            'k': draw(st.integers(0, 50)), 'junk': draw(st.sampled_from(JUNK)), 'before': draw(st.booleans())}


OTHER = ['', '\n\n', '# only a comment\n', 'just a line of text\n', '- 1\n- 2\n', '42\n', 'a: 1\nb: 2\n', '---\n', 'null\n',
         'Title\n 100. 10. 10. 0. 0. 0.\n', 'volume\nenergy\nphonon\n', '[ volume, energy, phonon ]\n', '\x00\x01\x02',
         'FORMAT P V\nDATA\n1. 2.\n', '%YAML 9\n', 'a: b: c\n', '2001-99-99\n', '"unterminated\n', '{ volume: [ 1. ] }\n',
         'phonon: 3\nvolume: 2\nenergy: 1\nnatom: 1\nqpoints: 1\nsupercell: 1\n']


def damaged(case):
    c, how = dict(case['file']), case['how']
    a, b, k, junk = case['a'], case['b'], case['k'], case['junk']
    vol, en, fr = values(c)
    w = list(c['w'])
    q = fr[a % c['nq']]
    band = q[b % len(q)]
    kk = k % c['nv']
    for x in ('list', 'flist'):
        if c[x] == 'spaces' and ('bad' in how or how.startswith('drop') or how.startswith('add')):
            c[x] = 'flow'
        if c[x] == 'scalar':
            c[x] = 'flow'
    if how == 'qpoints':
        c['sum'] = False
    if how == 'drop band':
        q.remove(band)
    if how == 'add band':
        q.insert(b % len(q), band)
    if how == 'drop frequency':
        del band[kk]
    if how == 'add frequency':
        band.insert(kk, '100.0')
    if how == 'drop energy':
        del en[kk]
    if how == 'add energy':
        en.insert(kk, '-30.5')
    if how == 'drop volume':
        del vol[kk]
    if how == 'bad frequency':
        band[kk] = junk
    if how == 'bad volume':
        vol[kk] = junk
    if how == 'bad energy':
        en[kk] = junk
    if how == 'bad weight':
        w[a % len(w)] = junk if junk != '[ 1.0, 2.0 ]' else '-1'
    bl = blocks(c, vol, en, fr, w)
    key = ['natom', 'supercell', 'qpoints', 'volume', 'energy', 'phonon'][a % 6]
    if how == 'missing key':
        del bl[key]
    if how == 'empty key':
        bl[key] = key + ':'
    if how == 'qpoints':
        n = c['nq'] + [-1, 1, 2, 5][b % 4]
        if n == sum(c['w']) and n > c['nq']:
            n += 1
        bl['qpoints'] = 'qpoints: %d' % n
    if how == 'natom':
        bl['natom'] = 'natom: %d' % (c['nat'] + [-1, 1, 2][b % 3])
    if how == 'bad natom':
        bl['natom'] = 'natom: ' + junk
    if how == 'bad qpoints':
        bl['qpoints'] = 'qpoints: ' + junk
    if how == 'bad supercell':
        bl['supercell'] = ['supercell: ' + junk, 'supercell:\n- [ 1, 0 ]\n- [ 0, 1 ]', 'supercell:\n- [ 1, 0, 0 ]\n- [ 0, 1, 0 ]',
                           'supercell:\n- [ 1, 0, 0 ]\n- [ 0, x, 0 ]\n- [ 0, 0, 1 ]', 'supercell: 1'][b % 5]
    if how == 'missing weight':
        bl['phonon'] = bl['phonon'].replace('weight:', 'weights:', 1)
    if how == 'missing band':
        bl['phonon'] = bl['phonon'].replace('band:', 'bands:', 1)
    if how == 'missing frequency':
        bl['phonon'] = bl['phonon'].replace('frequency:', 'frequencies:', 1)
    if how == 'add block':
        lines = bl['phonon'].split('\n')
        c2 = dict(c, nq=1, w=w[:1])
        more = blocks(c2, vol, en, fr[:1], w)['phonon'].split('\n')[1:]
        bl['phonon'] = '\n'.join(lines + more)
        bl['qpoints'] = 'qpoints: %d' % c['nq']
    s = text_of(c, bl)
    if how == 'not an input':
        s = OTHER[a % len(OTHER)]
    if how == 'cut':
        # cut inside the phonon block, which comes last
        c['order'] = [0, 1, 2, 3, 4, 5, 6]
        s = text_of(dict(c, crlf=False, end=False, list='flow', flist='flow'), bl).rstrip()
        s = s[:max(1, len(s) - 2 - (a * 97 + b * 13) % (len(s) - 2))].rstrip()
    if how == 'tab':
        s = s.replace('qpoints:', '\tqpoints:', 1)
    return s


def bad_body(case, ctx):
    from quantas.IO.qha_reader import QHAInputFileReader
    c = case['file']
    rd = None
    if case['before']:
        p0 = os.path.join(ctx.scratch, 'ok.yaml')
        write(p0, text_of(c, blocks(c, *values(c))))
        rd = QHAInputFileReader(p0)
        check(rd.completed, 'valid input rejected: {!r}', rd.error)
    s = damaged(case)
    path = os.path.join(ctx.scratch, 'bad.yaml')
    write(path, s)
    what = case['how']
    for name, calc in [('harmonic', ha()), ('quasi-harmonic', qha())]:
        try:
            err = calc.read_input(path)
        except Exception as e:
            fail('{}: the {} calculation ends with {}: {} instead of an explanation\n{}', what, name, type(e).__name__, e, s)
        check(isinstance(err, str) and len(err.strip()) > 5, '{}: accepted by the {} calculation (answer {!r})\n{}', what, name,
              err, s)
    if rd is None:
        rd = QHAInputFileReader(path)
    else:
        rd.load(path)
    check(not rd.completed and isinstance(rd.error, str), '{}: reader completed={} error={!r}\n{}', what, rd.completed, rd.error, s)
    ctx.note(what)
    ctx.interesting(True)


@st.composite
def noise(draw):
    c = draw(inputs(4))
    ops = draw(st.lists(st.tuples(st.sampled_from(['del', 'dup', 'set', 'ins', 'swap', 'line']), st.integers(0, 10 ** 6),
                                  st.integers(1, 30), st.sampled_from(['0', '9', '.', '-', ',', ' ', ':', '[', ']', '#', '\n', '  ',
                                                                       'e', 'x', '"', "'", '&', '*', '!', '\t', '\u00e9', '{', '?',
                                                                       '%', '_'])).map(list),
                        min_size=1, max_size=4))
    return {'file': c, 'ops': ops}


def noise_body(case, ctx):
    """Whatever is accepted is complete: every number is there and finite."""
    c = case['file']
    s = text_of(dict(c, crlf=False), blocks(c, *values(c)))
    for op, pos, n, ch in case['ops']:
        p = pos % max(1, len(s))
        if op == 'del':
            s = s[:p] + s[p + n:]
        elif op == 'dup':
            s = s[:p] + s[p:p + n] + s[p:]
        elif op == 'set':
            s = s[:p] + ch + s[p + 1:]
        elif op == 'ins':
            s = s[:p] + ch + s[p:]
        elif op == 'swap':
            s = s[:p] + s[p + n:p + 2 * n] + s[p:p + n] + s[p + 2 * n:]
        else:
            l = s.split('\n')
            del l[pos % len(l)]
            s = '\n'.join(l)
    path = os.path.join(ctx.scratch, 'n.yaml')
    write(path, s)
    calc = ha()
    try:
        err = calc.read_input(path)
    except Exception as e:
        fail('{}: {} instead of an explanation\n{}', type(e).__name__, e, s)
    if err is not None:
        check(isinstance(err, str) and len(err.strip()) > 5, 'unexplained rejection {!r}\n{}', err, s)
        ctx.note('rejected')
    else:
        rd = calc.input
        check(rd.completed and rd.error is None, 'accepted with completed={} error={!r}\n{}', rd.completed, rd.error, s)
        v, e, w, f = [np.asarray(x) for x in (rd.volume, rd.energy, rd.weights, rd.frequencies)]
        check(v.ndim == 1 and v.shape == e.shape and v.size == rd.nvol, 'accepted with volumes {} and energies {}\n{}', v, e, s)
        check(f.shape == (w.size, 3 * int(rd.natoms), v.size) and w.size == int(rd.qpoints),
              'accepted with frequencies of shape {}\n{}', f.shape, s)
        check(all(np.all(np.isfinite(x)) for x in (v, e, w, f)), 'accepted with undefined values\n{}', s)
        check(w.sum() > 0 and np.all(w >= 0), 'accepted with weights {}\n{}', w, s)
        check(isinstance(rd.jobname, str), 'title {!r}', rd.jobname)
        n = len(rd.data['phonon'])
        check(n == w.size or (n < w.size and abs(w.sum() - w.size) < 1e-6), 'accepted with {} blocks for {} q-points\n{}', n,
              w.size, s)
        for i, q in enumerate(rd.data['phonon']):
            check(len(q['band']) == 3 * int(rd.natoms), 'accepted with {} bands\n{}', len(q['band']), s)
        calc.report_input_data()
        ctx.note('accepted')
    ctx.interesting(True)


SUBS = [
    Sub('faithful', good, good_body, quick=150, thorough=3000, shards=(3, 6)),
    Sub('damaged', bad, bad_body, quick=400, thorough=8000, shards=(3, 6)),
    Sub('noise', noise, noise_body, quick=300, thorough=8000, shards=(2, 6)),
]
