"""Writes known_findings.json: repaired defects (by the subject of their commit
in /repo) and recorded ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
SHA = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log.splitlines() if ' fix: ' in l}
FIXED = [  # subject, properties, what failed
('do not convert energy densities and pressures in place', 'P01', "energy_to_pressure/pressure_to_energy changed the caller's array and failed on integer arrays"),
("accept the documented 'hartree' and 'rydberg' energy names", 'P01', "the documented names 'hartree' and 'rydberg' were rejected"),
('use the Angstrom instead of the Angstrom star', 'P01', 'lengths in Angstrom were converted with the Angstrom star (1.00001495 A)'),
('keep temperature and pressure ranges within the requested maximum', 'P04 P05', 'ranges such as -T 0 1 0.1 held one more value than requested, beyond the maximum (rounding of np.arange)'),
('start energy EoS fits from the actual energy minimum', 'P08', 'energy EoS fits started from the energy at the wrong volume and did not converge'),
('fit energy differences in the energy equations of state', 'P08', 'E0 of about -1e3 Ha swamped the relative convergence tolerance and fits stopped far from exact data'),
('use the implied second derivative of the bulk modulus in E(V) pressures', 'P08', 'pressures of the Birch-Murnaghan and Poirier-Tarantola E(V) forms were not -dE/dV'),
('guess energy EoS parameters from a cubic function of the strain', 'P08', 'parabolic starting guesses made fits of wide ranges diverge'),
('keep the provided parameters of axial EoS fits', 'P10', 'parameters given by the user for axial fits were replaced'),
('correct the implied second derivative of the Vinet bulk modulus', 'P09', "implied K'' of the Vinet form had a wrong coefficient"),
('do not change the EoS parameters in normalized pressures', 'P09', "normalised pressures changed the caller's parameters"),
('do not use the removed numpy aliases of Python types', 'P10', 'np.float/np.int raise AttributeError with numpy 1.24 and later'),
('write the EoS fit log in the file given by --outfile', 'P10 P25', 'eosfit ignored --outfile'),
('do not share data between EoS file readers', 'P19 P26', 'EoS readers shared one class-level dictionary, so an earlier file leaked into later ones'),
('store the short sigma keywords of EoS files under their own quantity', 'P19', 'uncertainties of abbreviated columns were stored under another quantity'),
('report missing pressures in EoS files', 'P19', 'a data file without pressures was accepted'),
('read the job title of EoS files as a title', 'P19', 'the title of a data file was stored as a one-element list or lost'),
('report malformed or missing rows of EoS files', 'P19', 'rows with missing or non-numeric cells were read silently or stopped the program'),
('do not stop EoS fits at the starting guess when the first pressure is zero', 'P10', 'P(V) fits of data starting at P=0 returned the starting guess'),
('refuse mechanically unstable crystals in the elastic analysis', 'P16', 'unstable crystals were not refused'),
('report the direction of the shear modulus and Poisson ratio extrema', 'P13', 'the directions printed for shear and Poisson extrema were those of other points'),
('do not report average wave velocities without a density', 'P14', 'average velocities were calculated with density 0 (infinite)'),
('export the compliance in the declared unit', 'P23', 'the compliance of the result file was not in the unit it declares'),
('correct the symmetry constraints of hexagonal and trigonal crystals', 'P16', 'hexagonal and trigonal matrices were not recognised'),
('correct the azimuth of Cartesian and group velocity directions', 'P15', 'azimuths of directions with negative x were wrong'),
('do not share data between SOEC file readers', 'P18 P26', 'SOEC readers shared one class-level dictionary'),
('accept titles starting with a number in SOEC files', 'P18', 'a title such as "2 GPa run" was read as matrix row'),
('read lower triangular SOEC matrices and reject malformed ones', 'P18', 'lower triangular files were misread, and files with missing or extra elements accepted'),
('search the shear and Poisson extrema on a finer grid', 'P13', 'reported extrema missed the true ones by more than 5 % of the range'),
('converge the transverse extrema of polar sections', 'P17', 'transverse extrema of polar sections stopped at local optima'),
('calculate the cofactor matrix of singular matrices', 'P15', 'enhancement factors along acoustic axes failed on singular matrices'),
('check the contents of phonon input files', 'P20', 'phonon inputs with wrong counts or damaged values were accepted'),
('accept phonon inputs with one volume given as a number', 'P20', 'a volume/energy given as a plain number was refused'),
('do not stop quasi-harmonic runs when a volume has no minimum', 'P05', 'one P-T point without a minimum stopped the whole run'),
('do not stop quasi-harmonic runs when an EoS fit does not converge', 'P05', 'one unconverged EoS fit stopped the whole run'),
('keep the scale of the EoS energy parameter in E(V) fits', 'P05 P08', 'fits with the energy parameter near zero did not converge'),
('declare the unit of QHA isobaric heat capacities', 'P06 P23', 'Cp had no unit in results and result file'),
('print the volume unit in use in QHA reports', 'P24', 'reports always printed A^3'),
('store the job title in QHA result files', 'P23', 'the job title was missing in QHA result files'),
("correct the integrand of Kieffer's entropy", 'P28', 'the entropy of acoustic branches missed a term'),
("integrate Kieffer's functions over the whole acoustic branch", 'P28', 'the acoustic integrals stopped before the cut-off'),
('report missing acoustic frequencies instead of raising AttributeError', 'P25', '--kieffer on an input without acoustic frequencies raised AttributeError'),
('take the polynomial minimum among the sampled volumes', 'P05', 'of two polynomial minima the first was taken, even far outside the sampled volumes'),
('return contiguous coefficients from polyfit', 'P27', 'coefficients of batched fits could not be given to the evaluation functions'),
('return the matrix of cofactors', 'P27', 'the transposed (adjugate) matrix was returned'),
('keep the data of each exported file apart', 'P24 P26', 'exporters shared one class-level dictionary'),
('report files that are not HDF5 when exporting results', 'P23', 'foreign files raised OSError'),
('report SOEC results without polar properties to export', 'P23 P24', 'exporting results of a run without --polar raised KeyError'),
('export harmonic quantities that do not depend on temperature', 'P24', 'the zero-point energy could not be exported'),
('report missing data when reading result files', 'P23', 'damaged result files raised KeyError'),
('export harmonic quantities that do not depend on temperature with QuantasHDF5Export', 'P24', 'the static energy could not be exported'),
('do not store polar properties that were not calculated', 'P23', 'result files of runs without --polar held polar quantities without data'),
('keep the digits of thermal expansion coefficients in QuantasHDF5Export', 'P24', 'thermal expansion was exported as 0.000000'),
('keep the elastic moduli of each ab initio output apart', 'P21 P26', 'ab initio interfaces shared class-level data'),
('reorder all the shear components of VASP elastic moduli', 'P21', 'C44, C55 and C66 of VASP (XY, YZ, ZX order) were not reordered'),
('count every line of the OUTCAR file when looking for elastic moduli', 'P21', 'OUTCAR files with blank lines were read at the wrong place'),
('report incomplete elastic moduli in ab initio outputs', 'P21', 'truncated elastic moduli raised exceptions'),
('do not share data between phonon input generators', 'P22 P26', 'generators shared one class-level list, so earlier outputs leaked into later inputs'),
('write any job title in generated phonon inputs', 'P22', 'titles with characters special to YAML made the generated file unreadable'),
('accept left-handed cells in ab initio phonon outputs', 'P22', 'left-handed cells gave negative volumes'),
('keep the weights of q-points that are not integers', 'P22', 'weights were truncated to integers'),
('read CRYSTAL frequencies of supercells at the gamma point', 'P22', 'supercell outputs without SCELPHONO had no q-points and could not be written'),
('report incomplete phonon data in CRYSTAL outputs', 'P22', 'outputs with fewer mode tables than q-points never ended or raised IndexError'),
('match the cells and the sorted volumes of CRYSTAL QHA outputs', 'P22', 'cells and sorted volumes were matched by rounding and could be lost or permuted'),
('report damaged ab initio phonon outputs', 'P22', 'damaged outputs raised exceptions or were accepted with wrong numbers'),
('report phonon outputs that do not agree with each other', 'P22', 'outputs with other atoms, supercells or q-points than the reference were mixed'),
('report any reference file that does not exist', 'P22 P25', 'a negative or too large reference raised IndexError'),
('report phonopy files that are not YAML', 'P22', 'files that are not YAML raised AttributeError'),
('report cells without volume in phonon outputs', 'P22', 'singular cells were accepted and written with volume zero'),
('keep temperature and pressure ranges given in decreasing order', 'P04 P05', 'a range such as -T 300 100 -50 gave no values (introduced by the repair of the ranges)'),
('ask before overwriting any existing file when exporting results', 'P24 P25', 'after answering no, the other file name given was overwritten without asking, even the result file itself'),
('refuse temperature and pressure ranges that cannot be used', 'P25', 'steps of zero, nan, inf, ranges in the wrong direction and temperatures below absolute zero ended in tracebacks, empty results or meaningless values'),
('refuse output files that would overwrite the input', 'P25', 'the log or the generated file could overwrite the input (soec MgO.txt -o MgO)'),
('report elastic and equation of state inputs that are not text', 'P25', 'binary inputs ended in a traceback'),
('report several weights given to one q-point', 'P20 P25', 'weight: 3 3 ended in a traceback'),
('report elastic inputs that start with an empty line', 'P25', 'soec of such a file ended in a traceback'),
('report data of EoS files that are not finite numbers', 'P19 P25', 'nan and inf in a data file ended in a LinAlgError during the fit'),
('refuse EoS data that are too few for a fit', 'P10 P25', 'with fewer data than parameters the fit stopped and uninitialised memory was reported as uncertainties and covariances; one datum ended in a traceback'),
('keep the whole curves inside compressibility and Poisson figures', 'P29', 'the radial axis of the compressibility and Poisson figures was set from one curve: others were cut, and a plane without positive compressibility ended in a ValueError'),
('keep the fractional coordinates of atoms read from phonopy files', 'P30', 'the fractional coordinates of atoms in phonopy files were truncated to integers'),
('keep the digits of the EoS parameters in the qha report', 'P31', 'values lost their trailing zeros in the value(error) notation, which shifts the error (4.0(3) for 4.00 +/- 0.03); errors of 10 and more were divided by ten'),
('count the k-points of left-handed supercells', 'P31', 'the number of sampled k-points was negative for expansion matrices of negative determinant, and the warning on acoustic modes was left out'),
]
out = []
for subject, props, what in FIXED:
    sha = SHA.pop('fix: ' + subject)
    for p in props.split():
        out.append({'property': p, 'key': sha, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (p, sha, what)})
assert not SHA, SHA
KNOWN = []
for p, key, what in KNOWN:
    out.append({'property': p, 'key': key, 'status': 'known', 'what': what})
out.sort(key=lambda e: e['property'])
json.dump({'findings': out}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(out), 'findings')
