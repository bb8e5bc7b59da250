"""P01: unit conversions."""
import numpy as np
from hypothesis import strategies as st
from quantas.utils.physics import units as U
from vlib.core import Sub, check, close, fail

RULE = ('Generated: quantity kind, ordered pair (or triple) of unit spellings in random letter case, '
        'values as scalar/list/int array/float array of random shape. Non-trivial: the two units differ, '
        'or the unit name must be rejected, or an integer/array container is used with a non-zero value.')
ASSUMPTIONS = ['SI/CODATA 2018 constants written out in the check (agreement to 1e-8 relative, 1e-12 for '
               'exactly defined units)']

EV, NA = 1.602176634e-19, 6.02214076e23
HA, RY = 4.3597447222071e-18, 2.1798723611035e-18
BOHR, C = 5.29177210903e-11, 299792458.

TEMP = {'C': (1., 273.15), 'K': (1., 0.), 'F': (5. / 9., 273.15 - 32. * 5. / 9.), 'R': (5. / 9., 0.)}
TEMP_NAMES = {'C': ['Celsius', 'celsius', 'C', 'c'], 'K': ['Kelvin', 'kelvin', 'K', 'k'],
              'F': ['Fahrenheit', 'fahrenheit', 'F', 'f'], 'R': ['Rankine', 'rankine', 'R', 'r']}
ENERGY = {'Ha': HA, 'eV': EV, 'Ry': RY, 'kJmol': 1000. / NA}
ENERGY_NAMES = {'Ha': ['Hartree', 'hartree', 'Ha', 'ha'], 'eV': ['electron volt', 'eV', 'ev'],
                'Ry': ['Rydberg', 'rydberg', 'Ry', 'ry'], 'kJmol': ['kJ/mol', 'kj/mol', 'kjmol']}
PRES = {'pa': 1., 'kpa': 1e3, 'mpa': 1e6, 'gpa': 1e9, 'bar': 1e5, 'kbar': 1e8, 'mbar': 1e11, 'gbar': 1e14}
PRES_NAMES = {k: [k, k[:-2] + 'Pa' if k.endswith('pa') else k] for k in PRES}
FREQ = {'cm^-1': C * 100., 'Hz': 1., 'THz': 1e12}
FREQ_NAMES = {'cm^-1': ['cm^-1'], 'Hz': ['Hz', 'hz'], 'THz': ['THz', 'thz']}
LEN = {'m': 1., 'A': 1e-10, 'bohr': BOHR}
LEN_NAMES = {'m': ['metre', 'm'], 'A': ['Angstrom', 'angstrom', 'A', 'a'], 'bohr': ['Bohr', 'bohr']}
VOL = {k: v ** 3 for k, v in LEN.items()}
EPVOL = {'A': 1e-30, 'bohr': BOHR ** 3}
EPVOL_NAMES = {'A': ['angstrom', 'A', 'a'], 'bohr': ['Bohr', 'bohr']}
EPEN = {k: v for k, v in ENERGY.items() if k != 'kJmol'}
EPEN_NAMES = {k: ENERGY_NAMES[k] for k in EPEN}

KINDS = {
    'energy': (U.convert_energy, ENERGY, ENERGY_NAMES),
    'pressure': (U.convert_pressure, PRES, PRES_NAMES),
    'frequency': (U.convert_frequency, FREQ, FREQ_NAMES),
    'length': (U.convert_lenght, LEN, LEN_NAMES),
    'volume': (U.convert_volume, VOL, LEN_NAMES),
}
ALL_NAMES = set(n.lower() for d in (TEMP_NAMES, ENERGY_NAMES, PRES_NAMES, FREQ_NAMES, LEN_NAMES)
                for v in d.values() for n in v)


def recase(name, mask):
    return ''.join(ch.upper() if (mask >> (i % 16)) & 1 else ch.lower() for i, ch in enumerate(name))


numbers = st.one_of(st.integers(-10 ** 6, 10 ** 6),
                    st.floats(-1e6, 1e6, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-12),
                    st.floats(1e-12, 1e12))
values = st.one_of(
    st.fixed_dictionaries({'form': st.just('scalar'), 'v': numbers}),
    st.fixed_dictionaries({'form': st.sampled_from(['list', 'farray', 'f0d', 'farray2', 'forder', 'strided']),
                           'v': st.lists(numbers, min_size=1, max_size=6)}),
    st.fixed_dictionaries({'form': st.sampled_from(['list', 'iarray', 'tuple']),
                           'v': st.lists(st.integers(-10 ** 6, 10 ** 6), min_size=1, max_size=6)}),
)


def build(v):
    """(object handed to the code, independent float copy)"""
    form, x = v['form'], v['v']
    if form == 'scalar':
        return x, np.float64(x)
    if form == 'list':
        return list(x), np.array(x, dtype=float)
    if form == 'tuple':
        return tuple(x), np.array(x, dtype=float)
    if form == 'iarray':
        return np.array(x, dtype=np.int64), np.array(x, dtype=float)
    if form == 'f0d':
        return np.array(float(x[0])), np.array(float(x[0]))
    if form == 'farray2':
        a = np.array([x, x], dtype=float)
        return a, a.copy()
    if form == 'forder':
        a = np.asfortranarray(np.array([x, x], dtype=float))
        return a, a.copy()
    if form == 'strided':
        big = np.zeros(2 * len(x))
        a = big[::2]
        a[:] = np.array(x, dtype=float)
        return a, a.copy()
    a = np.array(x, dtype=float)
    return a, a.copy()


def untouched(obj, before, what):
    now = np.array(obj, dtype=float)
    if now.shape != before.shape or not np.array_equal(now, before):
        fail('{}: the caller\'s data changed from {} to {}', what, before.tolist(), now.tolist())


def rt(kind, a, b):
    return 1e-12 if kind == 'pressure' or (kind == 'frequency') else 1e-8


def linear_case(draw_kind=None):
    @st.composite
    def s(draw):
        kind = draw(st.sampled_from(sorted(KINDS)))
        names = KINDS[kind][2]
        keys = sorted(names)
        u = [draw(st.sampled_from(keys)) for _ in range(3)]
        sp = [draw(st.sampled_from(names[k])) for k in u]
        m = [draw(st.integers(0, 65535)) if draw(st.booleans()) else None for _ in range(3)]
        sp = [recase(a, b) if b is not None else a for a, b in zip(sp, m)]
        return {'kind': kind, 'units': u, 'spell': sp, 'value': draw(values)}
    return s()


def linear_body(case, ctx):
    kind = case['kind']
    f, ref, _ = KINDS[kind]
    obj, before = build(case['value'])
    u, sp = case['units'], case['spell']
    r = rt(kind, u[0], u[1])
    ab = f(obj, sp[0], sp[1])
    want = before * (ref[u[0]] / ref[u[1]])
    close(ab, want, rtol=r, what='%s %s->%s' % (kind, sp[0], sp[1]))
    untouched(obj, before, '%s %s->%s' % (kind, sp[0], sp[1]))
    mid = np.array(ab, dtype=float)
    bc = f(ab, sp[1], sp[2])
    ac = f(obj, sp[0], sp[2])
    close(bc, np.array(ac, dtype=float), rtol=1e-12, what='%s %s->%s->%s' % (kind, *sp))
    untouched(ab, mid, 'second conversion')
    back = f(ab, sp[1], sp[0])
    close(back, before, rtol=1e-12, what='%s round trip %s->%s' % (kind, sp[0], sp[1]))
    untouched(obj, before, 'round trip')
    ctx.note(kind)
    ctx.note('form ' + case['value']['form'])
    ctx.interesting(u[0] != u[1] and np.any(before != 0))


@st.composite
def temp_case(draw):
    keys = sorted(TEMP)
    u = [draw(st.sampled_from(keys)) for _ in range(3)]
    sp = [draw(st.sampled_from(TEMP_NAMES[k])) for k in u]
    m = [draw(st.integers(0, 65535)) if draw(st.booleans()) else None for _ in range(3)]
    sp = [recase(a, b) if b is not None else a for a, b in zip(sp, m)]
    return {'units': u, 'spell': sp, 'value': draw(values)}


def temp_ref(x, a, b):
    sa, oa = TEMP[a]
    sb, ob = TEMP[b]
    return ((x * sa + oa) - ob) / sb


def temp_body(case, ctx):
    obj, before = build(case['value'])
    u, sp = case['units'], case['spell']
    scale = np.abs(before) + 1000.
    ab = U.convert_temperature(obj, sp[0], sp[1])
    close(ab, temp_ref(before, u[0], u[1]), rtol=1e-13, scale=scale, what='temperature %s->%s' % tuple(sp[:2]))
    untouched(obj, before, 'temperature %s->%s' % tuple(sp[:2]))
    mid = np.array(ab, dtype=float)
    close(U.convert_temperature(ab, sp[1], sp[2]), temp_ref(before, u[0], u[2]), rtol=1e-12, scale=scale,
          what='temperature %s->%s->%s' % tuple(sp))
    untouched(ab, mid, 'second conversion')
    close(U.convert_temperature(ab, sp[1], sp[0]), before, rtol=1e-12, scale=scale, what='temperature round trip')
    ctx.note('form ' + case['value']['form'])
    ctx.interesting(u[0] != u[1])


@st.composite
def ep_case(draw):
    e = draw(st.sampled_from(sorted(EPEN)))
    v = draw(st.sampled_from(sorted(EPVOL)))
    p = draw(st.sampled_from(sorted(PRES)))
    sp = [draw(st.sampled_from(EPEN_NAMES[e])), draw(st.sampled_from(EPVOL_NAMES[v])),
          draw(st.sampled_from(PRES_NAMES[p]))]
    m = [draw(st.integers(0, 65535)) if draw(st.booleans()) else None for _ in range(3)]
    sp = [recase(a, b) if b is not None else a for a, b in zip(sp, m)]
    return {'units': [e, v, p], 'spell': sp, 'value': draw(values), 'inverse': draw(st.booleans())}


def ep_body(case, ctx):
    e, v, p = case['units']
    sp = case['spell']
    obj, before = build(case['value'])
    fac = EPEN[e] / EPVOL[v] / PRES[p]
    if case['inverse']:
        got = U.pressure_to_energy(obj, *sp)
        want = before / fac
        what = 'pressure_to_energy %s' % sp
        inv = U.energy_to_pressure
    else:
        got = U.energy_to_pressure(obj, *sp)
        want = before * fac
        what = 'energy_to_pressure %s' % sp
        inv = U.pressure_to_energy
    first = np.array(got, dtype=float)
    close(first, want, rtol=1e-8, what=what)
    untouched(obj, before, what)
    close(inv(got, *sp), before, rtol=1e-12, what=what + ' round trip')
    untouched(got, first, what + ' round trip')
    ctx.note('form ' + case['value']['form'])
    ctx.interesting(np.any(before != 0))


@st.composite
def reject_case(draw):
    kind = draw(st.sampled_from(sorted(KINDS) + ['temperature', 'e2p', 'p2e']))
    bad = draw(st.one_of(
        st.sampled_from(['', ' ', 'furlong', 'erg', 'kcal/mol', 'atm', 'torr', 'nm', 'au', 'hPa', 'eVs', 'kK',
                         'Kelvins', 'rad/s', 'MHz', 'GHz', 'cm-1', 'cm^-2', 'tpa', 'ubar', 'bohrs', 'h']),
        st.text('abcdefghijklmnopqrstuvwxyz^-1/ ', min_size=1, max_size=8),
        st.sampled_from(sorted(ALL_NAMES))))
    return {'kind': kind, 'bad': bad, 'pos': draw(st.integers(0, 2)), 'value': draw(values)}


# spellings accepted beside the documented ones; not asserted either way
TOLERATED = {'°c', 'a^3', 'bohr^3', 'm^3'}


def reject_body(case, ctx):
    kind, bad, pos = case['kind'], case['bad'], case['pos']
    obj, before = build(case['value'])
    if kind in KINDS:
        f, ref, names = KINDS[kind]
        ok = set(n.lower() for v in names.values() for n in v)
        if bad.lower() in ok or bad.lower() in TOLERATED:
            return
        good = sorted(names)[0]
        good = names[good][0]
        args = (bad, good) if pos % 2 == 0 else (good, bad)
        if pos == 2:
            args = (bad, bad)
    elif kind == 'temperature':
        ok = set(n.lower() for v in TEMP_NAMES.values() for n in v)
        if bad.lower() in ok or bad.lower() in TOLERATED:
            return
        f = U.convert_temperature
        args = (bad, 'K') if pos == 0 else ('K', bad) if pos == 1 else (bad, bad)
    else:
        f = U.energy_to_pressure if kind == 'e2p' else U.pressure_to_energy
        sets = [EPEN_NAMES, EPVOL_NAMES, PRES_NAMES]
        ok = set(n.lower() for v in sets[pos].values() for n in v)
        if bad.lower() in ok or bad.lower() in TOLERATED:
            return
        args = ['ha', 'a', 'gpa']
        args[pos] = bad
    try:
        got = f(obj, *args)
    except Exception:
        untouched(obj, before, 'rejected conversion %s %r' % (kind, args))
        ctx.note('rejected ' + kind)
        ctx.interesting()
        return
    fail('{} conversion accepted unknown unit {!r} in {!r} and returned {!r}', kind, bad, list(args), got)


SUBS = [
    Sub('linear', linear_case, linear_body, quick=3000, thorough=40000, shards=(2, 4)),
    Sub('temperature', temp_case, temp_body, quick=2000, thorough=40000, shards=(1, 2)),
    Sub('density', ep_case, ep_body, quick=2000, thorough=40000, shards=(2, 4)),
    Sub('reject', reject_case, reject_body, quick=1500, thorough=20000, shards=(1, 2)),
]
