# -*- coding: utf-8 -*-
"""Prose of DESIGN.md (assembled by mkdesign.py)."""

HEAD = """
# Verification of gfulian/quantas by property-based testing

Quantas turns ab initio output into physical quantities: it reads elastic, equation-of-state and phonon data, computes harmonic and
quasi-harmonic thermodynamics, fits equations of state, analyses elastic tensors and seismic waves, stores results in HDF5 files and
exports them as tables. A user relies on the numbers being those of the physics stated, whatever the crystal, units and order of the
input, and on files being read, kept and written faithfully. Those are statements about all inputs, so each is decided here by
generated-input search against an explicit oracle. The ten existing tests compare one MgO data set and a few conversions.

All files here are written by hand except `properties.jsonl` (`tools/mkprops.py`), `MANIFEST.json` (`tools/mkmanifest.py`),
`known_findings.json` (`tools/mkfindings.py`) and this document (`tools/mkdesign.py`, prose in `tools/design_text.py`).

## Machinery

* `./check PROPERTY [--tier quick|thorough] [--replay FILE]` runs one property. Exit 0: held on everything explored; 1: a violation, with a
  `VIOLATION property=.. replay=..` line (the replay file holds the shrunk case; `--replay` runs it alone); 2: the check itself failed
  (build error, full disk).
* `vlib/build.py` mirrors `/repo/quantas` (sources only) into a directory keyed by the content of the sources, compiles the Cython
  extensions there with the flags of the project and imports that copy. `/repo` is never written to. Every check therefore sees the present tree,
  and two checks of one tree share one build.
* `vlib/runner.py` runs every sub-property in several forked shards (Hypothesis generates and shrinks; seeds derive from `VERIF_SEED`, the
  property, the sub-property and the shard, so a run is reproducible), each in its own scratch directory emptied before every case, with a time
  limit per case. Evidence counts the generated cases, the distinct non-trivial ones (by the rule of the property), labels and samples.
  An exception leaving the code under test is a violation; exhausted resources of the sandbox are not.
* `vlib/elastic.py` holds an independent elasticity: tensors of every crystal system made by averaging random ones over the point group, the
  3x3x3x3 tensor, Christoffel contraction, directional moduli by rotation, exact transverse extremes (eigenvalue envelope), averages.
* `vlib/qharef.py` holds model crystals with analytic static energies and frequencies, the oscillator functions, centred polynomial
  fits; `vlib/phin.py` writes phonon inputs in any unit and layout.
* No hooks were added to `/repo`.

Rules kept throughout: oracles never call the code they judge; comparisons allow for the rounding that the documented method itself has
(conditioning of the polynomial fits, printed digits), stated per property; nothing compares text layout, private names or call
structure, only values, files, exit codes and reports, so that rewriting the code without changing its behaviour stays quiet.

Destructive effects: all files are made in the scratch directory of the case; sessions run in forked processes; there is nothing in the code under
test that deletes files, and overwriting is confined to the scratch directory by absolute paths given to it.
"""

PROP = {
'P01': dict(oracle='SI values of every unit written out by hand (exact definitions and CODATA 2018), round trips, composition through a third unit, and byte comparison of the argument.',
            why='The tests convert a few numbers between a few units; a wrong factor in any other pair, an integer container, a changed argument or an accepted unknown name goes unnoticed.'),
'P02': dict(oracle='Closed formulas with expm1/log1p, plus identities among the returned numbers (F = U - TS, 0 <= Cv <= kB per mode, S >= 0, limits at 0 K and at high temperature).',
            why='One data set at a few temperatures does not reach soft modes, imaginary modes, very high or low h nu/kT, or several bands and weights at once.'),
'P03': dict(oracle='The same call with one thread (repeatedly, after other kernels) and an independent formula; byte comparison of every argument.',
            why='A race or an uninitialised accumulator depends on the number of threads and rows; tests run the small case once.'),
'P04': dict(oracle='Oscillator statistics of the physical description the file was written from (not of the file), at the temperatures the requested range denotes.',
            why='Reading, unit conversion, weighting and summation are only wrong together for particular units, weights, permutations and ranges.'),
'P05': dict(oracle='(a) the documented model (polynomials or equation of state through the sampled energies) evaluated independently with centred polynomials; (b) the true minimum of the smooth surface behind the samples, within the error of the model; (c) one Gauss-Newton step for equation-of-state minimisation, which must not improve the fit; (d) constructed energies whose polynomial has a second minimum outside the data.',
            why='One crystal with one setting is tested; wrong minima, derivatives and interpolated energies show up for other degrees, schemes, pressures and spacings.'),
'P06': dict(oracle='The identities themselves, on the exported file, each dataset converted to SI by the unit the file declares; entropy and heat capacity against the spectrum interpolated at the reported volume; the kernels against their formulas on arbitrary arrays.',
            why='Identities tie quantities computed at distant places (and unit systems, and temperature axes) to each other; the tests compare none of them.'),
'P07': dict(oracle='Metamorphic: the same crystal written canonically and rewritten.',
            why='No single expected value shows that a result depends on how the input was written.'),
'P08': dict(oracle='Numerical differentiation of the energies in high order, exact derivatives of independent forms, fits of exact data.',
            why='Parameter meaning is only visible over a range of volumes and parameters, and convergence only over scales.'),
'P09': dict(oracle='Independent expressions of each form from finite-strain theory and high-order derivatives of the returned pressures at the reference volume.',
            why='The pressure equations of state have no tests.'),
'P10': dict(oracle='Parameters the data were made from; the least-squares objective compared with an independent solver for noisy data; a parser of the printed report compared with the fits the dialogue asked for.',
            why='Convergence and independence of order, guess, uncertainties and history need many data sets and sequences of fits.'),
'P11': dict(oracle='Tensor invariants of the stiffness and compliance, ordering, isotropic relations, rotated crystals.',
            why='For the cubic tensor of the test many wrong formulas coincide.'),
'P12': dict(oracle='The compliance from the Mandel representation, rotated to the measuring frame.',
            why='High symmetry and axis directions hide transposed, permuted and sign errors.'),
'P13': dict(oracle='The property evaluated over dense sets of directions; transverse extremes solved exactly; the reported axes must attain the reported values.',
            why='An optimiser that misses an extremum, or reports the direction of another point, is right for the one crystal tested.',
            cost='an analysis of a low-symmetry crystal takes about 10 s, which limits the number of crystals'),
'P14': dict(oracle='Eigenvalues of the independently contracted Christoffel tensor, rotation, scaling by stiffness and density; polycrystal velocities of the report.',
            why='There is no test of wave velocities in other than the tabulated directions.'),
'P15': dict(oracle='Christoffel contraction; gradients of the frequency surface analytically and by finite differences; the Jacobian of the ray direction for the enhancement factor; a new object that analyses only that direction (history).',
            why='The seismic object caches lazily evaluated quantities; staleness depends on the order in which properties are read and directions set.'),
'P16': dict(oracle='Invariance of the tensor under the rotations of each system; eigenvalues by numpy.',
            why='Every matrix that is symmetric by construction or broken in one element is a case; the tests have a handful.'),
'P17': dict(oracle='The property in each direction of the plane, transverse extremes solved exactly.',
            why='Sections of orthotropic crystals hide mirrored and shifted angles.'),
'P18': dict(oracle='The generated matrix, density and title; for broken files, an error and no result.',
            why='Layouts multiply: form x title x density x spacing x damage x what was read before.'),
'P19': dict(oracle='The generated table, column by column; for broken files, an error naming the problem or at least no data.',
            why='Only one column layout is tested.'),
'P20': dict(oracle='The generated crystal; damaged files must be refused or, if the damage leaves a well-formed file, read as that file says (independent YAML reading).',
            why='Damage and layout are open-ended.'),
'P21': dict(oracle='The tensor printed in the synthetic program output, through the generated file and the reader provided.',
            why='Component order and units of two programs, several blocks per output and stale data only show with full triclinic tensors and sequences.',
            bounds=['program outputs are synthetic: they follow the fragments of format that the interfaces look for and the examples of the repository']),
'P22': dict(oracle='The numbers printed in the synthetic program outputs, through the generated file and the reader provided.',
            why='As P21, for three programs, meshes, supercells and sets of volumes.',
            bounds=['program outputs are synthetic, as in P21']),
'P23': dict(oracle='Byte equality of each dataset with the result of the calculator; h5py as independent reader; refusal of files that are not results.',
            why='Storing is only checked for existence by the tests.'),
'P24': dict(oracle='Each number of each table, by row and column, against the stored value rounded to the printed digits.',
            why='Transposed, shifted and truncated tables appear for particular shapes and magnitudes.'),
'P25': dict(oracle='The calculator run directly with the settings stated on the command line (own table of defaults and codes); the bytes of the folder before and after; a model of the overwrite dialogue.',
            why='Options interact, and protection of files is a statement about every file present and every answer.'),
'P26': dict(oracle='Every operation alone in a freshly forked process; a second look, at the end of the session, at everything obtained earlier.',
            why='Shared state needs two operations of one process to show.'),
'P27': dict(oracle='Definitions in centred variables or extended precision.',
            why='The helpers are tested with one polynomial.'),
'P28': dict(oracle='Gauss-Legendre quadrature of the sine-dispersion density of states in the angle variable, classical and zero-temperature limits, finite-difference identities.',
            why='Kieffer contributions have no test.'),
'P29': dict(oracle='The curves, limits, descriptions and legends held by the matplotlib figure objects against the sections given; sizes of the images written.',
            why='Sections of an ordinary crystal (positive values, similar planes) look right in any figure.',
            bounds=['the figure objects are judged, not the pixels']),
'P30': dict(oracle='The atoms and lattice vectors printed in the synthetic outputs, determinants of the printed cells, and an independent periodic table.',
            why='Structures are not looked at by any test; with one example, elements, cells or volumes could be exchanged.'),
'P31': dict(oracle='The data as written in the input; least-squares parameters and standard errors from an own fit; mean value theorem for numerical pressures; own determination coefficients.',
            why='Reports are not read by any test, and the values in them (units, errors, columns) are those users copy.'),
}

NA = """
## Not applicable

None of the 31 properties is left out. Parts of the repository that no property covers: the seismic figures (the plotting module of `quantas.seismic`
draws contour maps; only the numbers are decided) and the wording of reports beyond the numbers in them (P17, P24, P31). `quantas.seismic.seismic` cannot be imported at
this commit (`quantas/core/plotter.py` is missing), so no command reaches it; P15 runs its calculator with a stand-in for the missing base class.

Seen in that unreachable plotting module (`quantas/seismic/utils/seismic_plotter.py`), outside every property and therefore neither decided nor
repaired here: with the two-dimensional maps switched off, `run` still draws the maps of the ratios and of the polarization (reproduced, with the
same stand-in). By reading alone: the arrows of the polarization map are taken from columns 9 and 10 (the group velocity) instead of 4 and 5, the
colour bar title of the power-flow map has an unbalanced brace, and `_SEISMIC` is removed anywhere in the path of the result file.
"""

FINDINGS = """
Every violation met on the unchanged tree was first reproduced outside the check. All genuine defects these checks found had a small repair and were
fixed (one `fix:` commit each; the existing tests pass unedited); none is left as a known finding. The list, as in `known_findings.json`:
"""

ALARMS = """
### False alarms, and what was done

* P31: standard errors of nearly undetermined fits depend on where the optimiser stops; they are judged where the error of K' is below 0.6.
* P05 (soft crystals): cubic polynomials and other equations of state of strongly anharmonic crystals (K' of 8) miss the minimum by up to 0.25 % and 0.1 %;
  the tolerances against the true surface are now 0.8 % and 0.4 %, those against the polynomial of the same degree stay at 1e-6.
* P13: "no direction exceeds the reported extrema by more than 2 % of the range" was too strong for a grid search with refinement: for 1000 crystals the
  code misses cusps of S waves by up to 7 %. The statement now bounds a regular scan strictly and arbitrary directions within measured slacks.
* P06: positivity of S and Cv in the volume-interpolation scheme: a polynomial through values that vanish with T may cross zero; allowed by as much as the
  fit misses its data. F = U - TS in the same scheme: the three polynomials are fitted apart in the raw volume, so that rounding grows as
  (V/range)^degree; allowed.
* P06: alpha at the ends of the temperature axis comes from a higher-order one-sided difference, so it need not lie between one-sided quotients there.
* P18: titles made only of numbers (`1e5`, `nan`) are rows of a matrix by the format; not generated. A repeated last row or a density in place of the last row is itself a
  well-formed file. A blank first line is pinned to an IndexError of the reader by the existing tests (the command line reports it).
* P16: elements that differ by about the tolerance of the recognition (1e-3 GPa) are left out; so are unstable matrices decided by rounding.
* P15: in crystals near an instability the finite differences that judge the enhancement factor do not resolve it; they are taken at two steps and compared only
  when these agree.
* P23: damage inside an otherwise complete HDF5 file is not detectable and is not generated.
* P26: the HDF5 reader reads from the file when asked, so after the file was edited a second look is not compared; numpy's `over='ignore'` that a harmonic
  run leaves behind changes no value and is not judged.
* P10: normalised pressures along an axis are not constant in this code by construction; the statement is about volumes.
* P25: garbled elastic inputs are read but not analysed (a random stable matrix would be analysed for minutes).
"""

PLANTED = """
Each was written from the text of a property and the code, validated in a copy (builds, the existing tests pass, the demonstration discriminates) and run against
the quick tier of the check of its property, which reports all of those below. Remarks name those that a check missed at first and what was strengthened.
"""

SEED_NOTES = {
'p14-mode-order': 'missed: stiffer shear constants (S faster than P) are now generated',
'p13-anisotropy-sign': 'missed: negative compressibilities and Poisson ratios are more frequent, the anisotropy of each is judged',
'p23-large-float32': 'missed: large grids are now generated (sub-properties large, large-ha)',
'p26-file-cache': 'missed: inputs are now edited in place, at the same length, during a session',
'p03-clean-bands': 'missed: imaginary and acoustic modes and T = 0 in every kernel',
'p10-unsorted-reference': 'missed: expanded volumes in any order; judged in P10 as well as P09',
'p18-integer-title': 'missed: titles with # and other special characters',
'p26-cwd': 'missed: relative paths, and lists of files that do not exist',
'p26-seterr': 'missed: polar sections as an operation, and helper functions at the edges of their domains',
'p06-sorted-modes': 'missed by P06 (seen by P05): S and Cv are now judged against the interpolated spectrum',
'p05-no-pressure': 'missed: soft crystals (K0 from 0.05 GPa, pressures of some MPa) are now minimised in both ways',
'p11-pinv': 'missed: crystals close to a mechanical instability are now generated (P11, P12, P14, P15)',
'p16-relative-tol': 'missed: changes of a few MPa in stiff crystals; the oracle now decides within a factor 1.5 of the tolerance',
'p20-same-q': 'missed: q-positions may now be listed twice',
'p27-trimmed': 'missed: minima of polynomials of large volumes',
}

MUTATION = """
## Mutation runs

Besides the planted bugs, single-token mutations (constants, operators, comparisons, removed statements) were made at random in every source file and run
against the existing tests and, when those passed, against the checks that read the file. Survivors were looked at one by one: they are equivalent mutants
(redundant guards, starting guesses that converge to the same optimum, messages and progress output) or belonged to another check than the one tried first.
"""

TAIL = """
## Limits

Random search shows presence, not absence, of violations; the numbers of cases are in `evidence/`. Data races are seen only when they change a value in one
of the repetitions. The ab initio outputs are synthetic. Minimisations are judged where the reference equilibrium lies inside the sampled volumes.
Analyses of elastic crystals of low symmetry take 10 s each, so P13 and P17 see tens of crystals in the quick tier and hundreds in the thorough one.
"""
