"""Elastic tensors: generation, rotation and reference formulas (written from the definitions)."""
import itertools
import numpy as np
from hypothesis import strategies as st

PAIRS = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
VM = np.array([[0, 5, 4], [5, 1, 3], [4, 3, 2]])
W = np.array([1., 1., 1., np.sqrt(2.), np.sqrt(2.), np.sqrt(2.)])


def full_c(C):
    """3x3x3x3 stiffness of a Voigt matrix"""
    C = np.asarray(C, dtype=float)
    return C[VM[:, :, None, None], VM[None, None, :, :]]


def full_s(S):
    """3x3x3x3 compliance of a Voigt compliance matrix"""
    f = np.where(np.arange(6) < 3, 1., 0.5)
    S = np.asarray(S, dtype=float) * np.outer(f, f)
    return S[VM[:, :, None, None], VM[None, None, :, :]]


def compliance(C):
    """3x3x3x3 compliance through the Mandel representation"""
    M = np.asarray(C, dtype=float) * np.outer(W, W)
    Mi = np.linalg.inv(M) / np.outer(W, W)
    return Mi[VM[:, :, None, None], VM[None, None, :, :]]


def voigt(T):
    """Voigt stiffness of a 3x3x3x3 stiffness"""
    return np.array([[T[p + q] for q in PAIRS] for p in PAIRS])


def rotate4(T, R):
    return np.einsum('ai,bj,ck,dl,ijkl->abcd', R, R, R, R, T, optimize=True)


def rotate(C, R):
    return voigt(rotate4(full_c(C), R))


def rotation(axis, angle):
    a = np.asarray(axis, dtype=float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(angle) * K + (1. - np.cos(angle)) * K @ K


def random_rotation(rng):
    q = rng.standard_normal(4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


X, Y, Z = [1, 0, 0], [0, 1, 0], [0, 0, 1]
GENERATORS = {
    'cubic': [rotation([1, 1, 1], 2 * np.pi / 3), rotation(Z, np.pi / 2)],
    'hexagonal': [rotation(Z, np.pi / 3), rotation(X, np.pi)],
    'trigonal_high': [rotation(Z, 2 * np.pi / 3), rotation(X, np.pi)],
    'trigonal_low': [rotation(Z, 2 * np.pi / 3)],
    'tetragonal_high': [rotation(Z, np.pi / 2), rotation(X, np.pi)],
    'tetragonal_low': [rotation(Z, np.pi / 2)],
    'orthorhombic': [rotation(X, np.pi), rotation(Y, np.pi)],
    'monoclinic': [rotation(Y, np.pi)],
    'triclinic': [],
}
# from the most to the least symmetric, as elastic tensors
SYSTEMS = ['cubic', 'hexagonal', 'trigonal_high', 'trigonal_low', 'tetragonal_high', 'tetragonal_low', 'orthorhombic',
           'monoclinic', 'triclinic']


def group(name):
    """all rotations generated"""
    out = [np.eye(3)]
    new = [np.eye(3)]
    while new:
        fresh = []
        for a, g in itertools.product(new, GENERATORS[name]):
            b = g @ a
            if not any(np.allclose(b, o, atol=1e-8) for o in out):
                out.append(b)
                fresh.append(b)
        new = fresh
    return out


_groups = {}


def symmetrise(C, name):
    if name not in _groups:
        _groups[name] = group(name)
    C = sum(rotate(C, R) for R in _groups[name]) / len(_groups[name])
    C[np.abs(C) < 1e-10 * np.abs(C).max()] = 0.
    return 0.5 * (C + C.T)


def breaks(C, name):
    """largest change of an element under the symmetry operations of a system"""
    return max([float(np.abs(rotate(C, R) - C).max()) for R in GENERATORS[name]] or [0.])


def make(c):
    """the stiffness matrix of a case"""
    rng = np.random.RandomState(c['seed'])
    if c['system'] == 'isotropic':
        K, G = c['scale'] * rng.uniform(0.4, 1.), c['scale'] * rng.uniform(0.1, 1.)
        C = np.zeros((6, 6))
        C[:3, :3] = K - 2. * G / 3.
        C[range(3), range(3)] += 2. * G
        C[range(3, 6), range(3, 6)] = G
        return np.round(C, 6)
    A = rng.standard_normal((6, 6))
    q, _ = np.linalg.qr(A)
    lam = np.exp(c['spread'] * rng.uniform(-1., 1., 6))
    M = q @ np.diag(lam) @ q.T
    if c['like']:       # like real crystals: around an isotropic tensor
        iso = np.diag([1., 1., 1., 1., 1., 1.])
        iso[:3, :3] += rng.uniform(0.2, 1.)
        M = iso + 0.5 * c['spread'] * M
    k = np.array([1., 1., 1., 1., 1., 1.])
    k[3:] *= c.get('stiff', 1.)         # shear constants above the longitudinal ones
    M = M * np.outer(k, k)
    C = M / np.outer(W, W)
    C = C * c['scale'] / np.trace(C) * 6.
    if c['system'] != 'triclinic':
        C = symmetrise(C, c['system'])
    C = 0.5 * (C + C.T)
    if c.get('soft'):       # near a mechanical instability: the lowest eigenvalue (with its whole space) is reduced
        l, q = np.linalg.eigh(C * np.outer(W, W))
        l[l < l[0] + 1e-6 * l[-1]] *= 10. ** -c['soft']
        C = q @ np.diag(l) @ q.T / np.outer(W, W)
        C[np.abs(C) < 1e-10 * np.abs(C).max()] = 0.
        C = 0.5 * (C + C.T)
    if c.get('neg'):        # a soft strain that stretches some axes and shrinks others: negative compressibilities and Poisson ratios
        v = np.array([1., 1., -c['neg'], 0., 0., 0.])
        if c['system'] in ('orthorhombic', 'monoclinic', 'triclinic'):
            v = v[[[0, 1, 2], [0, 2, 1], [2, 0, 1]][c['seed'] % 3] + [3, 4, 5]] * [1., 1., 0.8, 0., 0., 0.]
        S = np.linalg.inv(C)
        C = np.linalg.inv(S + 3. * np.linalg.norm(S, 2) * np.outer(v, v) / v.dot(v))
        C[np.abs(C) < 1e-10 * np.abs(C).max()] = 0.
        C = 0.5 * (C + C.T)
    C = np.round(C, 6)
    if c['system'] in ('hexagonal', 'trigonal_high', 'trigonal_low'):
        C[5, 5] = 0.5 * (C[0, 0] - C[0, 1])
    return C


def stable(C, margin=1e-4):
    e = np.linalg.eigvalsh(C)
    return e[0] > margin * e[-1]


@st.composite
def tensors(draw, systems=None, spread=1.2, soft=False, neg=False):
    c = {'system': draw(st.sampled_from(systems or (SYSTEMS + ['isotropic']))), 'seed': draw(st.integers(0, 2 ** 31 - 1)),
         'spread': draw(st.floats(0.05, spread)), 'like': draw(st.booleans()), 'stiff': draw(st.sampled_from([1., 1., 1., 1., 0.6, 1.8])),
         'scale': draw(st.sampled_from([12., 80., 100., 250., 600.]))}
    if soft:
        c['soft'] = draw(st.sampled_from([0., 0., 0., 1., 2., 2.5, 3.]))
    if neg and not c.get('soft') and c['system'] not in ('cubic', 'isotropic'):
        c['neg'] = draw(st.sampled_from([None, None, 0.5, 1., 1.6]))
    return c


def unit(theta, phi):
    return np.array([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)])


def transverse(theta, phi, chi):
    """unit vector perpendicular to unit(theta, phi); chi from the direction of growing theta"""
    et = np.array([np.cos(theta) * np.cos(phi), np.cos(theta) * np.sin(phi), -np.sin(theta)])
    ep = np.array([-np.sin(phi), np.cos(phi), 0.])
    return np.cos(chi) * et + np.sin(chi) * ep


def young(S4, n):
    return 1. / np.einsum('...i,...j,...k,...l,ijkl->...', n, n, n, n, S4, optimize=True)


def lincomp(S4, n):
    return 1000. * np.einsum('...i,...j,ijkk->...', n, n, S4, optimize=True)


def shear(S4, n, m):
    return 0.25 / np.einsum('...i,...j,...k,...l,ijkl->...', n, m, n, m, S4, optimize=True)


def poisson(S4, n, m):
    a = np.einsum('...i,...j,...k,...l,ijkl->...', n, n, m, m, S4, optimize=True)
    return -a * young(S4, n)


def waves(C4, n, rho):
    """ascending phase velocities in km/s (GPa, kg/m3)"""
    G = np.einsum('...j,...k,ijkl->...il', n, n, C4, optimize=True)
    e = np.linalg.eigvalsh(G)
    return np.sqrt(e * 1.e9 / rho) / 1000.


def averages(C):
    """[[K, E, G, nu] for Voigt, Reuss, Hill]"""
    C4, S4 = full_c(C), compliance(C)
    KV = np.einsum('iijj', C4) / 9.
    GV = (np.einsum('ijij', C4) - np.einsum('iijj', C4) / 3.) / 10.
    KR = 1. / np.einsum('iijj', S4)
    GR = 5. / (2. * (np.einsum('ijij', S4) - np.einsum('iijj', S4) / 3.))
    out = []
    for K, G in ((KV, GV), (KR, GR), ((KV + KR) / 2., (GV + GR) / 2.)):
        out.append([K, 9. * K * G / (3. * K + G), G, (3. * K - 2. * G) / (2. * (3. * K + G))])
    return np.array(out)


def envelope(S4, n):
    """((Gmin, Gmax), (numin, numax)) over all transverse directions of unit vectors n (N,3)"""
    a = np.where(np.abs(n[:, 2:3]) < 0.9, np.array([[0., 0., 1.]]), np.array([[1., 0., 0.]]))
    u = np.cross(n, a)
    u /= np.linalg.norm(u, axis=1)[:, None]
    v = np.cross(n, u)

    def ext(Q):
        """extreme values of m.Q.m, m perpendicular to n"""
        p = np.einsum('ni,nij,nj->n', u, Q, u)
        q = np.einsum('ni,nij,nj->n', v, Q, v)
        r = 0.5 * (np.einsum('ni,nij,nj->n', u, Q, v) + np.einsum('ni,nij,nj->n', v, Q, u))
        mid, rad = 0.5 * (p + q), np.hypot(0.5 * (p - q), r)
        return mid - rad, mid + rad
    lo, hi = ext(np.einsum('ni,nk,ijkl->njl', n, n, S4, optimize=True))
    E = young(S4, n)
    plo, phi = ext(np.einsum('ni,nj,ijkl->nkl', n, n, S4, optimize=True))
    return (0.25 / hi, 0.25 / lo), (-phi * E, -plo * E)


def sphere(N):
    """nearly uniform half sphere plus the crystal axes and diagonals"""
    i = np.arange(N) + 0.5
    z = i / N
    ph = np.pi * (1 + 5 ** 0.5) * i
    r = np.sqrt(1 - z * z)
    pts = np.column_stack((r * np.cos(ph), r * np.sin(ph), z))
    ax = [np.array(p, dtype=float) for p in itertools.product((-1, 0, 1), repeat=3) if any(p)]
    return np.vstack([pts] + [a / np.linalg.norm(a) for a in ax])


def soec_text(C, title='crystal', rho=None, form='full', fmt='%r'):
    lines = [] if title is None else [title]
    for i in range(6):
        cols = {'full': range(6), 'upper': range(i, 6), 'lower': range(i + 1)}[form]
        lines.append('  '.join(fmt % float(C[i, j]) for j in cols))
    if rho is not None:
        lines.append(repr(rho))
    return '\n'.join(lines) + '\n'
