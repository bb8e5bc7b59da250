import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('P01','Unit conversions are exact, reversible, composable and side-effect free',
 'Converting temperatures, energies, pressures, frequencies, lengths, volumes and energy densities between any two documented units gives the value implied by the SI/CODATA definitions of those units, so that conversions compose, invert each other and are linear (affine for temperature). Every documented spelling of a unit, in any letter case, is accepted and an undocumented unit is rejected. The caller\'s data are never modified and scalars, lists and arrays of integers or floats all give the same numbers.',
 ['inputs'],'all values (scalars, lists, integer or float arrays of any shape), all ordered pairs and triples of documented units, any spelling, and unknown unit names',
 'No test calls a unit conversion; the HA test only uses the default units, where every conversion is the identity.',
 ['quantas/utils/physics/units.py'],[('convert_* two-step conversion through a pivot unit','quantas/utils/physics/units.py'),('energy_to_pressure / pressure_to_energy','quantas/utils/physics/units.py')],['return values of the conversion functions'])

p('P02','Harmonic thermodynamic functions equal exact oscillator statistics',
 'For any temperatures, phonon bands and band weights, the zero-point energy, thermal internal energy, entropy, isochoric heat capacity and vibrational Helmholtz energy equal the weighted sums of the exact quantum harmonic-oscillator expressions, with non-positive frequencies contributing nothing and T=0 giving the zero-temperature limit. They therefore satisfy F=U-TS, S=-dF/dT, Cv=dU/dT=T dS/dT, S>=0, 0<=Cv<=kB per mode, and are additive over modes and independent of mode and band order.',
 ['inputs'],'all temperatures T>=0 (including 0 and the extremes of h*nu/kT), all band arrays (bands x modes x volumes, zero and negative frequencies included) and positive weights',
 'One test samples one crystal at one temperature, one q-point and one volume, with three equal frequencies; it cannot see limits, weights, several bands or several volumes.',
 ['quantas/utils/physics/statistical_mechanics.pyx','quantas/utils/physics/thermodynamics.pyx'],
 [('per-mode kernels and band sums','quantas/utils/physics/statistical_mechanics.pyx'),('composite thermodynamic functions','quantas/utils/physics/thermodynamics.pyx')],['return values of the kernels'])

p('P03','Parallel kernels are deterministic and leave their inputs alone',
 'The numerical kernels return the same numbers whatever the number of threads they run on, however often they are called and whether they are called alone or after other computations, to within summation rounding. They never modify the arrays they are given.',
 ['schedules','configurations','inputs'],'all thread counts from 1 to twice the number of cores, repeated calls, arrays from one element to many times the thread count',
 'Tests call each kernel once, on arrays of one volume and one temperature, so the parallel loop has a single iteration and neither races nor per-thread state can show.',
 ['quantas/utils/physics/statistical_mechanics.pyx','quantas/utils/physics/thermodynamics.pyx','quantas/utils/math/fast_math.pyx'],
 [('OpenMP prange loops without the interpreter lock','quantas/utils/physics/statistical_mechanics.pyx')],['return values under different thread counts'])

p('P04','A harmonic run reports the exact thermodynamics of its input file',
 'For any valid phonon input and any choice of energy, frequency, length and temperature units, a harmonic-approximation run completes and its results - zero-point, thermal and total internal energy, entropy, heat capacity, TS, vibrational and total Helmholtz energy - are those of the described crystal at exactly the requested temperatures, per unit of total band weight. Choosing other units, scaling all weights, reordering or splitting q-points changes nothing but the units the numbers are expressed in.',
 ['inputs','configurations'],'all valid phonon inputs (1..n volumes, q-points, weights, zero/negative frequencies), all unit choices and temperature ranges',
 'The only run test uses one Gamma-point cell at 298.15 K in default units.',
 ['quantas/harmonic/harmonic.py','quantas/IO/qha_reader.py','quantas/utils/physics/units.py'],
 [('unit handling and weight normalisation','quantas/harmonic/harmonic.py'),('input reading','quantas/IO/qha_reader.py')],['calculator results','result file'])

p('P05','QHA equilibrium volumes minimise F(V,T)+PV, with consistent KT and energies',
 'For every requested pressure and temperature whose equilibrium lies inside the sampled volume range, the volume reported by a quasi-harmonic run minimises the Helmholtz energy plus PV, and the isothermal bulk modulus (with its pressure derivative) and free energies reported are those of the same free-energy surface at that volume. This holds for both interpolation schemes and for both minimisation methods with every energy equation of state, to within the documented polynomial or equation-of-state model, so volumes decrease with pressure. Points without an equilibrium are reported as undefined (nan), and of several polynomial minima the one at the sampled volumes is taken.',
 ['inputs','configurations'],'synthetic crystals with analytically known static energy and volume-dependent spectra, all scheme/minimisation/degree/equation-of-state combinations, all P-T grids inside the sampled range',
 'No test runs the quasi-harmonic code.',
 ['quantas/qha/qha.py','quantas/qha/utils/ev_eos.py','quantas/utils/math/polynomials.py'],
 [('volume minimisation and frequency/thermodynamic interpolation','quantas/qha/qha.py'),('energy EoS fit','quantas/qha/utils/ev_eos.py')],['calculator results'])

p('P06','QHA derived quantities obey the thermodynamic identities',
 'Every quasi-harmonic result set satisfies, at each pressure and temperature, H=U+PV, G=F+PV, F=U-TS, alpha=(1/V)(dV/dT) at constant P, Cp-Cv=alpha^2 KT V T, KS/KT=Cp/Cv=1+alpha*gamma*T and gamma=alpha KT V/Cv, all expressed in the units that the results and the result file declare. Thermal expansion and what derives from it need at least 50 temperatures; with fewer, the expansion, Cp-Cv, Cp and gamma are reported as zero and KS as KT. Entropy and heat capacity are non-negative and equal those of the interpolated spectrum at the equilibrium volume.',
 ['inputs','configurations'],'all synthetic crystals, schemes, minimisations, unit choices and P-T grids (with and without enough temperatures for thermal expansion)',
 'No test runs the quasi-harmonic code, and the identities couple arrays computed in separate stages.',
 ['quantas/qha/qha.py'],[('thermal expansion, heat capacities, Grueneisen parameter, adiabatic modulus','quantas/qha/qha.py')],['calculator results','result file'])

p('P07','QHA results do not depend on units or on how the input is written',
 'Expressing the same crystal in other energy, length, frequency, temperature or pressure units, listing volumes, q-points or modes in another order, scaling all weights, or splitting a q-point into two of half weight gives the same physical quasi-harmonic results after conversion.',
 ['inputs','configurations'],'all synthetic crystals, all pairs of unit systems and all representation changes, for each scheme and minimisation',
 'No test runs the quasi-harmonic code at all; unit errors cancel or vanish in the default units.',
 ['quantas/qha/qha.py','quantas/utils/physics/units.py'],[('unit conversions at input and output of the calculation','quantas/qha/qha.py')],['calculator results'])

p('P08','Energy equations of state are self-consistent and recover exact data',
 'For each energy-volume equation of state the pressure is minus the volume derivative of the energy, the energy is minimal at V0, and V0, K0 and K0\' are the volume, bulk modulus and its pressure derivative at that minimum. Fitting energies generated from the same form recovers the parameters and reproduces the data, for any energy and volume scale the fit supports.',
 ['inputs'],'all physical parameter sets (E0, V0, K0, K0\'), compression ranges and numbers of points, for the Murnaghan, Birch-Murnaghan, Poirier-Tarantola and Vinet forms',
 'No test touches the energy equations of state.',
 ['quantas/qha/utils/ev_eos.py'],[('energy, pressure and bulk-modulus forms and least-squares fit','quantas/qha/utils/ev_eos.py')],['fit parameters and curves'])

p('P09','Pressure equations of state mean what their parameters say',
 'For every pressure-volume formulation and order, the pressure vanishes at V0, -V dP/dV there equals K0 and dK/dP equals K0\' (the implied value when the order does not fit it), likewise K0\'\' where the formulation has it; pressure decreases with volume in the physical range. In the axial (linear) variant the axis length takes the place of the volume: M0=-a dP/da and M\'=dM/dP at the zero-pressure length (an implied M\' is three times the volumetric one). Evaluation never modifies the caller\'s parameters; implied values are filled in when fitting.',
 ['inputs','configurations'],'all physical parameter sets, compressions, orders 2..4, volume or axial data, five formulations',
 'Tests only cover reading of the data file.',
 ['quantas/eosfit/utils/pv_eos.py'],[('pressure functions and implied parameters','quantas/eosfit/utils/pv_eos.py')],['pressure values'])

p('P10','EoS fits recover exact data and do not depend on data order or prior fits',
 'Fitting pressure-volume or pressure-axis data generated by a formulation recovers its parameters, whatever the order of the data, the uncertainties given and the starting guess in a reasonable range, and reports the derived values implied by the order. Finite-strain normalised pressures of such volume data, referred to the first volume listed, are constant (2nd order) or linear (3rd order) in strain. The data, the guess and later fits are unaffected by earlier ones.',
 ['inputs','histories'],'all formulations, orders, noise-free data sets, uncertainty columns, starting guesses and sequences of fits',
 'Tests only cover reading of the data file.',
 ['quantas/eosfit/utils/pv_eos.py','quantas/eosfit/eosfit.py','quantas/eosfit/utils/interactive.py'],[('orthogonal distance regression','quantas/eosfit/utils/pv_eos.py'),('interactive workflow','quantas/eosfit/utils/interactive.py')],['fit results and printed report'])

p('P11','Polycrystalline averages are exact, ordered and frame independent',
 'The Voigt, Reuss and Hill bulk, shear and Young moduli and Poisson ratio equal the tensor-invariant definitions, with Reuss<=Hill<=Voigt, and satisfy the isotropic relations between moduli; for isotropic tensors the three averages coincide. They do not change when the crystal axes are rotated.',
 ['inputs'],'all positive-definite symmetric stiffness tensors of any symmetry, and all rotations',
 'One test uses one cubic tensor, for which many wrong formulas agree.',
 ['quantas/soec/utils/soec_obj.py','quantas/soec/soec.py'],[('averages from stiffness and compliance','quantas/soec/utils/soec_obj.py')],['averages reported by the elastic run'])

p('P12','Directional elastic properties equal the rotated tensor',
 'The Young modulus, linear compressibility, shear modulus and Poisson ratio along any direction (and transverse direction) equal those obtained by rotating the compliance tensor to that frame, and transform covariantly when the crystal is rotated. The specialised treatment of orthotropic crystals gives the same values as the general one.',
 ['inputs'],'all positive-definite tensors, all directions and transverse angles, all rotations',
 'The run test checks averages and eigenvalues only; no directional value is compared.',
 ['quantas/soec/utils/soec_obj.py'],[('directional compliance contractions','quantas/soec/utils/soec_obj.py')],['directional property values'])

p('P13','Reported elastic extrema are attained and bound every direction',
 'The minimum and maximum reported for each directional elastic property are attained at the directions reported with them, bound the property over every direction to the resolution of the search (no direction of a regular scan in steps of 7.5 degrees, 10 degrees for shear modulus and Poisson ratio, is more extreme, and no direction at all by more than a small part of the range), and their ratio is the reported anisotropy, infinite when the minimum is not positive; transverse directions reported are perpendicular to the main direction.',
 ['inputs'],'all positive-definite tensors (generic and of each crystal system), all sampled directions',
 'The extrema are never compared with anything; the only test crystal is cubic.',
 ['quantas/soec/soec.py','quantas/soec/utils/soec_obj.py'],[('grid search plus local refinement','quantas/soec/soec.py')],['variation results of the elastic run'])

p('P14','Elastic wave phase velocities solve the Christoffel equation',
 'The phase velocities reported for any propagation direction are the square roots of the eigenvalues of the Christoffel tensor divided by the density, ordered from slow secondary to primary, and the isotropic velocities are those of the Hill averages. They scale as the square root of stiffness over density and rotate with the crystal.',
 ['inputs'],'all positive-definite tensors, densities, directions and rotations',
 'No test evaluates a wave velocity.',
 ['quantas/soec/utils/soec_obj.py','quantas/soec/soec.py'],[('Christoffel matrix','quantas/soec/utils/soec_obj.py')],['velocities from the elastic run'])

p('P15','Seismic group velocities, polarisation and power flow are consistent',
 'For any stiffness, density and direction the seismic analysis gives phase velocities and orthonormal polarisations solving the Christoffel equation, group velocities equal to the gradient of frequency with respect to wave vector (so their projection on the direction is the phase velocity), the power-flow angle between ray and wave vector, and the enhancement factor of the slowness surface. Relative velocities refer to the isotropic ones of the Hill averages, the angles reported for a direction describe that same direction, and results depend only on the current direction, not on those analysed before.',
 ['inputs','histories'],'all positive-definite tensors, densities, sequences of directions given in Cartesian or spherical form, any order of reading the properties',
 'No test imports the seismic code.',
 ['quantas/seismic/utils/seismic_obj.py'],[('Christoffel matrix, gradients and Hessian','quantas/seismic/utils/seismic_obj.py'),('cached per-direction quantities','quantas/seismic/utils/seismic_obj.py')],['velocity and angle properties'])

p('P16','Elastic stability and crystal symmetry are recognised correctly',
 'An elastic run reports the stiffness eigenvalues and is refused as mechanically unstable exactly when an eigenvalue is not positive. The crystal system recognised from a stiffness matrix is one whose symmetry constraints the matrix satisfies, and a matrix built with the constraints of a crystal system in its standard axes (and otherwise generic) is recognised as that system; constraints count as satisfied to 1e-3.',
 ['inputs'],'all symmetric stiffness matrices, stable or not, built for every crystal system or violating exactly one of its constraints',
 'The only test crystal is a stable cubic one.',
 ['quantas/soec/soec.py','quantas/soec/utils/symmetry.py'],[('eigenvalue test','quantas/soec/soec.py'),('symmetry templates','quantas/soec/utils/symmetry.py')],['run outcome and log','recognised symmetry'])

p('P17','Polar sections plot the true directional property',
 'Each point of a polar section of a directional elastic property or phase velocity is the value of that property in that direction of that plane, and where the section gives an envelope over transverse directions its minimum and maximum bound every transverse direction. Sections are periodic and complete.',
 ['inputs'],'all positive-definite tensors, the three coordinate planes and every angle',
 'No test requests polar data.',
 ['quantas/soec/soec.py','quantas/soec/utils/soec_obj.py'],[('polar loops','quantas/soec/soec.py')],['polar results'])

p('P18','Elastic input files are read the same in every accepted form, or rejected',
 'A stiffness matrix written in full, upper-triangular or lower-triangular form, with or without title and density and with any spacing and number style, yields the same symmetric matrix, title and density. A file with missing, extra or non-numeric elements or an asymmetric matrix (by more than 1e-3) is never accepted as a valid input, unless the damage leaves another well-formed file.',
 ['inputs'],'all stiffness matrices, layouts, titles, densities and single-point corruptions of such files',
 'Tests read one full-form file and one file with a missing row.',
 ['quantas/IO/soec_reader.py'],[('triangular-form detection and symmetrisation','quantas/IO/soec_reader.py')],['reader outcome'])

p('P19','Pressure-volume data files are read column by column as declared',
 'A data file with the declared columns in any order, with comments and blank lines, in any keyword case, yields for each declared quantity exactly the listed values and for undeclared ones nothing. Files without pressure, without any structural column or with damaged rows are reported as errors and never read as valid data.',
 ['inputs'],'all subsets and orders of columns, numbers of rows, number formats, comments, titles and single-point corruptions',
 'Tests read two or three fixed files.',
 ['quantas/IO/eos_reader.py'],[('keyword-driven parser','quantas/IO/eos_reader.py')],['reader outcome'])

p('P20','Phonon input files are read faithfully or rejected with a reason',
 'A phonon input listing volumes, energies, weights, q-points and bands is read with every number in its place (qpoints may be the number of listed q-points or the sum of their weights). A file with missing keywords, wrong counts or damaged values, or that is not such an input, ends with an error message and is never accepted by a calculation as valid input.',
 ['inputs'],'all valid inputs and all single-keyword, single-count and syntax corruptions of them',
 'Tests read two fixed files.',
 ['quantas/IO/qha_reader.py','quantas/core/reader.py'],[('YAML parsing and checks','quantas/IO/qha_reader.py')],['reader outcome','calculator outcome'])

p('P21','Generated elastic inputs carry the ab initio tensor unchanged',
 'Generating an elastic input from a CRYSTAL or VASP output and reading it back gives the elastic tensor printed in that output (for VASP the relaxed, total moduli when printed), in GPa, in standard Voigt order and fully symmetric, with its density when printed, to the digits written in the input. Outputs that are not elastic calculations, are incomplete or have unreadable elements are refused, and generating several inputs one after another gives the same files as generating each alone.',
 ['inputs','histories'],'all tensors (any symmetry), densities, both programs, damaged outputs and sequences of generations',
 'Tests convert one cubic CRYSTAL output, for which element order, symmetry and sequence errors are invisible.',
 ['quantas/IO/soec_writer.py','quantas/interfaces/crystal.py','quantas/interfaces/vasp.py'],[('output parsing and Voigt reordering','quantas/interfaces/vasp.py'),('output parsing','quantas/interfaces/crystal.py')],['generated file as read back'])

p('P22','Generated phonon inputs carry the ab initio phonons unchanged',
 'Generating a phonon input from CRYSTAL frequency outputs, a CRYSTAL quasi-harmonic output or phonopy outputs and reading it back gives, per volume, the cell volume, energy per cell and every frequency (in wavenumbers), with the q-points and weights printed, volumes in the order given. Inconsistent or damaged sets are refused with an error, and earlier generations do not affect later ones.',
 ['inputs','histories'],'all cells, supercells, q-meshes, frequencies (also imaginary), numbers of volumes, the three sources and sequences of generations',
 'One test converts one Gamma-point CRYSTAL output of a two-atom cell.',
 ['quantas/IO/qha_writer.py','quantas/interfaces/crystal.py','quantas/interfaces/phonopy.py'],[('output parsing','quantas/interfaces/crystal.py'),('output parsing','quantas/interfaces/phonopy.py'),('YAML writing','quantas/IO/qha_writer.py')],['generated file as read back'])

p('P23','Result files contain exactly the computed results and their settings',
 'The result file written by a harmonic, quasi-harmonic or elastic run contains every computed quantity, bit for bit as computed, on the stated temperature and pressure axes, together with the title (harmonic and quasi-harmonic runs) and the units actually used. Reading it back with the provided reader returns those same values, and reading a foreign or damaged file is reported as an error.',
 ['inputs','configurations'],'all runs of the three calculators in all unit choices and shapes',
 'No test writes or reads a result file.',
 ['quantas/harmonic/harmonic.py','quantas/qha/qha.py','quantas/soec/soec.py','quantas/IO/hdf5_reader.py'],[('HDF5 writing','quantas/qha/qha.py'),('HDF5 reading','quantas/IO/hdf5_reader.py')],['HDF5 file contents'])

p('P24','Exported text tables reproduce the stored results',
 'Exporting any stored quantity of a result file to text writes one value per grid point, each on the row and column of its own temperature, pressure, volume or angle, equal to the stored value to the printed precision, and reports of the runs print the computed values likewise. Exporting several files or quantities one after another gives the same text as exporting each alone.',
 ['inputs','histories'],'all result files of the calculators (all shapes), all exportable quantities, sequences of exports',
 'No test exports anything.',
 ['quantas/core/export.py','quantas/IO/hdf5_export.py','quantas/harmonic/utils/export.py','quantas/qha/utils/export.py','quantas/soec/utils/export.py','quantas/seismic/utils/export.py'],[('table writers','quantas/core/export.py')],['exported text files'])

p('P25','Command-line options reach the calculation and user files are protected',
 'Running a calculation, generation or export from the command line with any combination of options gives the same results as the corresponding calculation with those settings, writing only the files named by its options. An existing result file or exported table is overwritten only after confirmation and the input never changes, unusable inputs and options are reported without producing results or tracebacks, and quiet runs print no results on screen.',
 ['inputs','configurations','histories'],'all commands, option combinations, valid and invalid inputs, pre-existing outputs and answers to the overwrite question',
 'No test goes through the command line.',
 ['quantas/cmdline/commands/cmd_quantas.py','quantas/harmonic/commands/cmd_ha.py','quantas/qha/commands/cmd_qha.py','quantas/soec/commands/cmd_soec.py','quantas/eosfit/commands/cmd_eosfit.py'],[('option handling','quantas/qha/commands/cmd_qha.py'),('overwrite confirmation','quantas/cmdline/utils/messages.py')],['exit status, screen output, files written'])

p('P26','Results never depend on what the same session did before',
 'Reading files, generating inputs, running calculations and exporting results in one session, in any order and any number of times and with failures in between, gives each of them the result it would have given alone in a fresh session, and never changes objects obtained earlier.',
 ['histories'],'all interleavings of reads, generations, runs and exports over several different files, including failing ones',
 'Each test performs one operation in isolation.',
 ['quantas/IO/soec_reader.py','quantas/IO/eos_reader.py','quantas/IO/qha_writer.py','quantas/interfaces/crystal.py','quantas/interfaces/vasp.py','quantas/core/reader.py','quantas/core/calculator.py'],[('per-object state','quantas/core/reader.py')],['results of each operation'],
 [('reader data dictionaries','values read from a file','quantas/IO/soec_reader.py')])

p('P27','Polynomial and tensor helpers agree with their mathematical definitions',
 'Least-squares polynomial fits, evaluations, derivatives, minima and determination coefficients, and the small linear-algebra and difference helpers, agree with their definitions: exact polynomials are recovered, residuals are orthogonal to the fitted basis, the reported minima are exactly the real local minima of the polynomial, and for non-constant data R-squared is 1 for perfect fits and never above 1.',
 ['inputs'],'all degrees, coefficient sets, abscissae, data with and without noise, batches of curves',
 'No test calls these helpers.',
 ['quantas/utils/math/polynomials.py','quantas/utils/math/fast_math.pyx','quantas/utils/math/derivative.py'],[('fit, evaluation and minimisation','quantas/utils/math/polynomials.py')],['return values'])

p('P28','Acoustic (Kieffer) contributions equal the sine-dispersion integrals',
 'For any temperatures and acoustic cut-off frequencies, the thermal Helmholtz energy, entropy and heat capacity attributed to acoustic branches equal the integrals over the sinusoidal density of states, reach the classical limits at high temperature and vanish at T=0, and satisfy S=-dF/dT and Cv=T dS/dT.',
 ['inputs'],'all temperatures T>=0 and cut-off frequencies',
 'No test touches the acoustic model.',
 ['quantas/qha/utils/kieffer.py'],[('quadrature over the sine dispersion','quantas/qha/utils/kieffer.py')],['return values'])
p('P29','Figures show the computed sections, whole and under their own names',
 'Each polar figure of an elastic analysis holds three panels, named after the (xy), (xz) and (yz) planes, whose curves are exactly the sections computed for that property and plane, entirely inside the radial axis, with a legend naming each curve by its colour, whatever their sign and size. A run asked for figures writes one image per computed property, of the requested resolution, and no others.',
 ['inputs','configurations'],'all sections (signs, magnitudes, numbers of points), orders of figures and runs with and without density',
 'No test draws a figure.',
 ['quantas/soec/utils/plotting.py','quantas/soec/soec.py'],[('polar figures','quantas/soec/utils/plotting.py')],['figure objects','image files'])
p('P30','Crystal structures and elements are read from ab initio outputs unchanged',
 'The readers of CRYSTAL and phonopy outputs provide the number of atoms, the chemical elements, the fractional coordinates, the lattice vectors and the volume of the unit cell and of the supercell that the output prints, together with the expansion matrix between them and the numbers of atoms, modes and cells derived from it, each reader for its own file whatever others were read. Every chemical symbol corresponds to its atomic number and back.',
 ['inputs','histories'],'all outputs of the supported programs and kinds, elements, coordinates, cells (handedness included) and expansion matrices, several readers alive at once',
 'No test reads a structure from an ab initio output; one sample could not tell the cell from the supercell or one element from another.',
 ['quantas/interfaces/crystal.py','quantas/interfaces/phonopy.py','quantas/utils/chemistry/__init__.py','quantas/utils/chemistry/symbols.py'],[('geometry sections of CRYSTAL outputs','quantas/interfaces/crystal.py'),('unit cell and supercell of phonopy files','quantas/interfaces/phonopy.py'),('table of the elements','quantas/utils/chemistry/__init__.py')],['attributes of the readers','return values of the conversions'])
p('P31','Printed reports carry the values of the input and of the results',
 'The reports of ha, qha and eosfit print what was read and computed: job, numbers of atoms, k-points, q-points and volumes, the volumes with the static energies and pressures in the units of the run, weights and coordinates of the q-points with the average determination coefficient of their own bands, the fitted parameters with their own standard errors in value(error) notation, the data of the columns present in an EoS file and only these, and the parameters, standard errors, covariances and residuals of each fit.',
 ['inputs','configurations'],'all inputs, units, equations of state, fit orders, subsets of data columns, noise levels and orders of the volumes',
 'No test reads a report; a unit, a column or an error in the wrong place shows only with particular units, several columns, several q-points or noisy data.',
 ['quantas/qha/qha.py','quantas/eosfit/eosfit.py','quantas/ha/ha.py','quantas/IO/qha_reader.py','quantas/IO/eos_reader.py','quantas/utils/table.py'],[('report of the input and of the static equation of state','quantas/qha/qha.py'),('report of the fits','quantas/eosfit/eosfit.py'),('description of the input','quantas/IO/qha_reader.py')],['text of the reports'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
