"""P29: figures of the elastic analysis."""
import inspect
import os
import numpy as np
from hypothesis import strategies as st
from click.testing import CliRunner
from vlib import elastic as el
from vlib.core import Sub, check, close, fail
from props.p17 import PLANES, compare

RULE = ('Generated: sections of 2 to 60 points with positive, negative, null and tiny values given to the plotting functions in any '
        'order, several figures in a row, and (fewer) complete runs of the command line with --polar, --plot, '
        '--dpi and --outfile. Oracle: the curves held by the figure against the sections. Non-trivial: the three sections differ.')
ASSUMPTIONS = ['a figure shows the (xy), (xz) and (yz) sections in three panels named after them',
               'what is judged is the figure object: its curves, radial limits and legend, and the size of the file']

COLS = {'E': 1, 'LC': 2, 'G': 2, 'Nu': 3, 'waves': 3}
LEGEND = {'E': None, 'LC': ['positive', 'negative'], 'G': ['minimum', 'maximum'], 'Nu': ['negative', 'minimum', 'maximum'],
          'waves': ['s1', 's2', 'p']}
NAMES = {'E': 'young', 'LC': 'compress', 'G': 'shear', 'Nu': 'poisson', 'waves': 'wave'}


@st.composite
def section(draw, kind):
    n = draw(st.integers(2, 60))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    scale = draw(st.sampled_from([1e-3, 0.3, 1., 100., 4e4]))
    v = np.sort(rng.uniform(0.05, 1., (n, COLS[kind])), axis=1)
    if kind == 'LC':
        s = rng.uniform(-1., 1., n) + draw(st.sampled_from([-1.2, -0.5, 0., 0.5, 1.2]))
        v = np.column_stack((np.maximum(s, 0.), np.maximum(-s, 0.)))
    elif kind == 'Nu':
        lo = rng.uniform(-1., 1., n)*draw(st.sampled_from([0.2, 1.])) + draw(st.sampled_from([-1., 0., 1.]))
        v = np.column_stack((np.minimum(lo, 0.), np.maximum(lo, 0.), lo + rng.uniform(0., 1., n)))
    return np.column_stack((np.linspace(0., 360., n), v * scale)).tolist()


@st.composite
def case(draw):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(sorted(COLS)))
        out.append({'kind': k, 'planes': [draw(section(k)) for _ in range(3)]})
    return {'figures': out}


def judge(fig, kind, planes, what):
    """the curves of the figure against the sections (in the order xy, xz, yz)"""
    axes = [a for a in fig.axes if a.lines]
    check(len(axes) == 3, '{}: {} panels with curves', what, len(axes))
    fig.canvas.draw()
    colours = []
    for ax, p, t in zip(axes, ('xy', 'xz', 'yz'), planes):
        w = '{} ({})'.format(what, p)
        text = ' '.join(x.get_text() for x in ax.texts) + ' ' + ax.get_title()
        check(p in text and not any(o in text for o in PLANES if o != p), '{}: panel described as {!r}', w, text)
        check(NAMES[kind] in text.lower(), '{}: panel described as {!r}', w, text)
        check(len(ax.lines) == COLS[kind], '{}: {} curves', w, len(ax.lines))
        # zero at the top or anywhere, but the angle must run over the circle the same way in the three panels
        colours.append([li.get_color() for li in ax.lines])
        for k, li in enumerate(ax.lines):
            x, y = np.asarray(li.get_xdata(orig=True), float), np.asarray(li.get_ydata(orig=True), float)
            close(x, np.radians(t[:, 0]), atol=1e-9, what=w + ' angles of curve {}'.format(k + 1))
            close(y, t[:, 1 + k], rtol=1e-12, what=w + ' values of curve {}'.format(k + 1))
        lo, hi = ax.get_ylim()
        top = t[:, 1:].max()
        check(hi >= top - 1e-9 * abs(top), '{}: values up to {} and radial axis up to {}', w, top, hi)
        check(lo <= t[:, 1:].min() + 1e-9 * abs(top), '{}: values from {} and radial axis from {}', w, t[:, 1:].min(), lo)
    check(len({(a.get_theta_offset(), a.get_theta_direction()) for a in axes}) == 1, '{}: panels oriented differently', what)
    check(colours[0] == colours[1] == colours[2], '{}: panels coloured differently {}', what, colours)
    if LEGEND[kind] is not None:
        leg = fig.legends or [a.get_legend() for a in axes if a.get_legend()]
        check(len(leg) == 1, '{}: {} legends', what, len(leg))
        names = [x.get_text().lower() for x in leg[0].get_texts()]
        check(len(names) == len(LEGEND[kind]) and all(a in b for a, b in zip(LEGEND[kind], names)),
              '{}: legend {}', what, names)
        check([h.get_color() for h in leg[0].get_lines()] == colours[0], '{}: legend colours', what)


def funcs():
    from quantas.soec.utils import plotting as pl
    return {'E': pl.young_polar_plot, 'LC': pl.compressibility_polar_plot, 'G': pl.shear_polar_plot,
            'Nu': pl.poisson_polar_plot, 'waves': pl.seismic_waves_polar_plot}


def body(c, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    F = funcs()
    made = []
    try:
        for k, f in enumerate(c['figures']):
            arrs = [np.array(t) for t in f['planes']]
            keep = [a.copy() for a in arrs]
            fig = F[f['kind']](*arrs)
            check(all(np.array_equal(a, b) for a, b in zip(arrs, keep)), 'the sections given were modified')
            made.append((fig, f['kind'], keep))
        for k, (fig, kind, arrs) in enumerate(made):
            judge(fig, kind, arrs, 'figure {} of {}: {}'.format(k + 1, len(made), kind))
            ctx.interesting(not (np.array_equal(arrs[0], arrs[1]) or np.array_equal(arrs[1], arrs[2])))
    finally:
        plt.close('all')


@st.composite
def run_case(draw):
    c = draw(el.tensors(systems=['orthorhombic'], spread=0.8, neg=True))
    c['rho'] = draw(st.one_of(st.just(0.), st.floats(500., 12000.)))
    c['dpi'] = draw(st.sampled_from([None, 20, 37, 60, 310]))
    c['where'] = draw(st.sampled_from(['', 'my.figures']))
    return c


def run_body(c, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.image as mi
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from quantas.cmdline.commands.cmd_quantas import cli
    from quantas.soec.soec import SOECCalculator
    C = el.make(c)
    if not el.stable(C, 2e-3):
        ctx.note('unstable, left out')
        return
    path = os.path.join(ctx.scratch, 'c.dat')
    with open(path, 'w') as f:
        f.write(el.soec_text(C, rho=c['rho'] or None))
    got = []
    save, ccs = Figure.savefig, getattr(SOECCalculator, 'calculate_polar_properties', None)

    def savefig(self, fname, *a, **k):
        got.append((self, str(fname)))
        return save(self, fname, *a, **k)
    # the sections themselves are judged by P17: fewer points make these runs shorter
    def polar(self, *a, **k):
        k['nrad'] = 9
        return ccs(self, **k)
    short = ccs is not None and 'nrad' in inspect.signature(ccs).parameters
    Figure.savefig = savefig
    if short:
        SOECCalculator.calculate_polar_properties = polar
    try:
        here = os.path.join(ctx.scratch, c['where'])
        os.makedirs(here, exist_ok=True)
        out = os.path.join(here, 'out')
        args = ['soec', path, '-o', out, '--polar', '--plot', '-q'] + ([] if c['dpi'] is None else ['--dpi', str(c['dpi'])])
        r = CliRunner().invoke(cli, args)
        if r.exception is not None and not isinstance(r.exception, SystemExit):
            fail('the run stopped with {!r}', r.exception)
        import h5py
        kinds = ['E', 'LC', 'G', 'Nu'] + (['waves'] if c['rho'] > 0. else [])
        polar = {p: {} for p in PLANES}
        with h5py.File(out + '.hdf5', 'r') as f:
            for k in f.keys():
                if k.startswith('polar_'):
                    _, v, p = k.split('_')
                    polar[p][v] = f[k][:]
        compare(C, c['rho'], polar, len(polar['xy']['E']), 'stored ')
        files = sorted(x for x in os.listdir(here) if x.endswith('.png'))
        check(not c['where'] or not any(x.endswith('.png') for x in os.listdir(ctx.scratch)), 'figures written outside the folder of the output')
        check(files == sorted('out_{}.png'.format(k) for k in kinds), 'figures written: {}', files)
        by = {os.path.basename(p): fig for fig, p in got}
        for k in kinds:
            name = 'out_{}.png'.format(k)
            img = mi.imread(os.path.join(here, name))
            if name in by:
                fig = by[name]
                dpi = 80 if c['dpi'] is None else c['dpi']
                size = np.round(np.array(fig.get_size_inches())[::-1] * dpi)
                check(np.all(np.abs(np.array(img.shape[:2]) - size) <= 1), '{}: {} pixels, {} expected', name, img.shape, size)
                judge(fig, k, [polar[p][k] for p in ('xy', 'xz', 'yz')], name)
                ctx.note('curves judged')
        ctx.interesting(True)
    finally:
        Figure.savefig = save
        if short:
            SOECCalculator.calculate_polar_properties = ccs
        plt.close('all')


SUBS = [Sub('figures', case, body, quick=40, thorough=800, shards=(4, 8), hang=120),
        Sub('run', run_case, run_body, quick=2, thorough=6, shards=(4, 8), hang=600)]
