"""P12: directional elastic properties."""
import numpy as np
from hypothesis import strategies as st
from vlib import elastic as el
from vlib.core import Sub, check, close

RULE = ('Generated: positive-definite tensors of every crystal system, directions and transverse angles (random, crystal axes, '
        'poles and diagonals, any multiple of the period), random rotations of the crystal. Oracle: the compliance from the '
        'Mandel representation rotated to the measuring frame. Non-trivial: anisotropic and not along an axis.')
ASSUMPTIONS = ['the transverse angle is measured from the direction of growing theta, as in vector()']

SPECIAL = [0., np.pi / 4, np.pi / 2, np.pi, 3 * np.pi / 4, np.pi / 3, 2 * np.pi, -np.pi / 2]


def angle(lo, hi):
    return st.one_of(st.floats(lo, hi), st.floats(lo, hi), st.sampled_from(SPECIAL))


@st.composite
def case(draw):
    c = draw(el.tensors(soft=True, neg=True))
    c['dirs'] = [[draw(angle(-4., 7.)), draw(angle(-7., 7.)), draw(angle(-7., 7.))] for _ in range(draw(st.integers(1, 4)))]
    c['rot'] = draw(st.integers(0, 2 ** 31 - 1))
    c['as_array'] = draw(st.booleans())
    return c


def frame(n, m):
    """rows: the measuring frame with x along n and y along m"""
    return np.array([n, m, np.cross(n, m)])


def polar_of(n):
    return float(np.arccos(np.clip(n[2], -1., 1.))), float(np.arctan2(n[1], n[0]))


def values(o, a):
    return [float(o.young_modulus(a[:2])), float(o.linear_compressibility(a[:2])), float(o.shear_modulus(a)),
            float(o.poisson_ratio(a))]


NAMES = ['Young modulus', 'linear compressibility', 'shear modulus', 'Poisson ratio']


def body(c, ctx):
    from quantas.soec.utils.soec_obj import SOEC, SOECOrtho, vector
    C = el.make(c)
    if not el.stable(C, 1e-5):
        ctx.note('unstable, left out')
        return
    S4 = el.compliance(C)
    s = SOEC(C)
    objs = [('general', s)]
    if c['system'] in ('orthorhombic', 'tetragonal_high', 'hexagonal', 'cubic', 'isotropic'):
        objs.append(('orthotropic', SOECOrtho(s)))
    R = el.random_rotation(np.random.RandomState(c['rot']))
    rot = SOEC(el.rotate(C, R))
    sc = [1. / np.abs(S4).max(), 1000. * np.abs(S4).max(), 1. / np.abs(S4).max(), 1.]
    for d in c['dirs']:
        th, ph, ch = d
        n, m = el.unit(th, ph), el.transverse(th, ph, ch)
        a = np.array(d) if c['as_array'] else d
        close(vector(th, ph), n, atol=1e-13, what='direction {}'.format(d))
        close(vector(th, ph, ch), m, atol=1e-13, what='transverse direction {}'.format(d))
        T = el.rotate4(S4, frame(n, m))
        want = [1. / T[0, 0, 0, 0], 1000. * np.einsum('kk', T[0, 0]), 0.25 / T[0, 1, 0, 1], -T[0, 0, 1, 1] / T[0, 0, 0, 0]]
        cond = np.abs(S4).max() / T[0, 0, 0, 0]
        cond2 = np.abs(S4).max() / T[0, 1, 0, 1]
        for nm, o in objs:
            got = values(o, a)
            for k in range(4):
                rt = 1e-10 * (1. + [cond, 1., cond2, cond][k])
                close(got[k], want[k], rtol=rt, atol=1e-10 * sc[k] * (1. + cond * (k == 3)),
                      what='{} {} at {}'.format(nm, NAMES[k], d))
        # opposite directions, other transverse sense
        for b in ([np.pi - th, ph + np.pi, -ch], [th, ph, ch + np.pi]):
            close(values(s, b), got, rtol=1e-8 * (1. + cond + cond2), atol=1e-9 * np.array(sc),
                  what='value for the opposite sense {}'.format(b))
        # the rotated crystal in the rotated direction
        nr, mr = R @ n, R @ m
        tr, pr = polar_of(nr)
        cr = float(np.arctan2(mr @ el.transverse(tr, pr, np.pi / 2), mr @ el.transverse(tr, pr, 0.)))
        close(values(rot, [tr, pr, cr]), got, rtol=1e-6 * (1. + cond + cond2), atol=1e-7 * np.array(sc),
              what='rotated crystal')
        ctx.interesting(c['system'] != 'isotropic' and np.abs(n).max() < 0.999)
    ctx.note(c['system'])


SUBS = [Sub('directional', case, body, quick=350, thorough=5000, shards=(3, 8))]
