#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties is kept here, in a readable form)."""
import json, pathlib
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None)))
S="enterprise/signals/"
prop("C01","Likelihood equals the Gaussian marginal density of the composed model",
 "For every pulsar model built by adding white-noise, ECORR, Gaussian-process, timing-model and deterministic signals, and every parameter point, the log-likelihood of the array equals -1/2 r'C^-1 r - 1/2 log det C with r the residuals minus all delays and C the sum of the covariances of all signals (the factor of 2 pi omitted), plus the extra prior terms of the signals. It is the sum over pulsars when no signal correlates them, whether the point is given as a dictionary or as a vector.",
 ["inputs","configurations"],"every composition of signals, every data set and every parameter point where the covariance is well conditioned",
 "The only likelihood tests need data files that are missing here; they use one data set, a few fixed compositions and one parameter point.",
 [S+"signal_base.py",S+"gp_signals.py",S+"white_signals.py"],
 [("LogLikelihood.__call__",S+"signal_base.py"),("SignalCollection.get_TNT/get_TNr/get_rNr_logdet",S+"signal_base.py"),("KernelMatrix.inv",S+"utils.py")],
 ["PTA.get_lnlikelihood"])
prop("C02","Correlated common signals give the joint covariance of the whole array",
 "When a common Gaussian process is shared by several pulsars, the covariance of the array has between pulsars a and b the block F_a phi F_b' times the overlap reduction function of their positions (its diagonal value within a pulsar), summed over all common processes, whatever the order of pulsars, pulsars without the process included. The likelihood is the joint Gaussian density with that covariance, added to each pulsar's own noise.",
 ["inputs","configurations"],"every set of pulsar positions, overlap function, number of common processes, subset of pulsars sharing them, and parameter point",
 "Common-signal tests need missing data files and compare two pulsars with a hand-built matrix for one ORF.",
 [S+"signal_base.py",S+"gp_signals.py",S+"utils.py"],
 [("PTA.get_phi",S+"signal_base.py"),("BasisCommonGP.get_phicross",S+"gp_signals.py"),("PTA._commonsignals",S+"signal_base.py")],
 ["PTA.get_phi","PTA.get_lnlikelihood"])
prop("C03","All inversion methods agree with the exact inverse of the prior matrix",
 "For every model, parameter point and method (cliques, partition, sparse), the inverse of the coefficient prior covariance and its log determinant are those of the matrix the array reports, or the method states that it does not support the model. The likelihood is therefore the same with every method and with the sparse and the dense Cholesky implementation, on first use and on every later use.",
 ["inputs","configurations"],"every pattern of shared basis columns, diagonal and dense priors and correlated signals, and every method",
 "Tests compare methods for one or two hand-picked models whose data files are missing.",
 [S+"signal_base.py",S+"utils.py"],
 [("PTA._setcliques/get_phiinv_byfreq_cliques",S+"signal_base.py"),("PTA.get_phiinv_byfreq_partition",S+"signal_base.py"),("KernelMatrix.add/set/inv",S+"utils.py")],
 ["PTA.get_phiinv","PTA.get_lnlikelihood","KernelMatrix"],
 [("cliques","which entries of the prior matrix must be inverted together",S+"signal_base.py")])
prop("C04","Answers depend only on the parameters given, never on earlier calls",
 "Every quantity a model reports (delays, white-noise solves, bases, prior covariances and inverses, likelihood) for a set of parameter values is the same whatever was evaluated before, in whatever order, with whatever other values, and whichever parameters varied in between. Arrays and matrices already returned do not change because of later calls.",
 ["histories","inputs"],"every sequence of evaluations of every quantity at every sequence of parameter points",
 "Tests make one or two calls per model; stale answers need particular sequences of points, returning to an earlier point or changing one parameter only.",
 [S+"signal_base.py",S+"gp_signals.py",S+"white_signals.py",S+"deterministic_signals.py"],
 [("cache_call",S+"signal_base.py"),("simplememobyid",S+"signal_base.py"),("basis_params/delay_params/ndiag_params",S+"gp_signals.py")],
 ["Signal.get_*","SignalCollection.get_*","PTA.get_*"],
 [("per-object caches","last results keyed by the parameter values they depend on",S+"signal_base.py")])
prop("C05","Default values of constants take effect whenever they are set",
 "A constant parameter takes its declared value until a default is set for its name, and from then on the most recent default set for it, in every quantity of the model, at whatever moment defaults are set and on the array or on a single pulsar's model. Setting defaults for some names never changes other parameters, and constants never appear among the free parameters.",
 ["histories","configurations"],"every interleaving of evaluations and default settings for every subset of the constants of a model",
 "Tests set defaults once, before the first evaluation.",
 [S+"signal_base.py",S+"parameter.py"],
 [("set_default_params",S+"signal_base.py"),("Constant",S+"parameter.py")],
 ["PTA.set_default_params","SignalCollection.set_default_params","PTA.get_*"])
prop("C06","Parameter registry: names, sharing, order and vector mapping",
 "The free parameters of a model are exactly those its signals use, each named from pulsar, signal name, selection label and keyword (common signals: signal name and keyword; instantiated parameters keep their own name and are shared), listed once and sorted by name. Vector parameters expand to name_0, name_1, ... in place, and a vector of values in that order denotes the same point as the dictionary from names to values, for the likelihood, the prior and the hypercube transform alike.",
 ["configurations","inputs"],"every combination of signals, selections, shared, constant, hierarchical and vector parameters",
 "Tests look at a few fixed names; collisions and vector offsets need particular combinations.",
 [S+"signal_base.py",S+"parameter.py",S+"gp_signals.py",S+"white_signals.py",S+"deterministic_signals.py"],
 [("PTA.params/param_names/map_params",S+"signal_base.py"),("Function name template",S+"parameter.py")],
 ["PTA.params","PTA.param_names","PTA.map_params","Signal.param_names"])
prop("C07","Prior densities, quantile functions and samplers describe one distribution",
 "For every parameter type, scalar or vector and for all admissible hyperparameters, the density is the documented one (zero outside the support), log density and density agree, vector densities multiply, and the quantile function is the inverse of its cumulative distribution. Samples have the requested shape, lie in the support and follow that distribution; the prior of an array is the sum of the log densities of its free parameters and its hypercube transform maps each coordinate by its quantile function.",
 ["inputs","configurations"],"all hyperparameter values, scalar and vector parameters, all points inside, outside and on the edge of the support",
 "Tests evaluate each prior at a handful of points.",
 [S+"parameter.py",S+"gp_priors.py",S+"signal_base.py"],
 [("UniformPrior/NormalPrior/TruncNormalPrior/LinearExpPrior",S+"parameter.py"),("InvGamma",S+"gp_priors.py"),("PTA.get_lnprior/get_hypercube_transform",S+"signal_base.py")],
 ["Parameter.get_pdf/get_logpdf/get_ppf/sample","PTA.get_lnprior","PTA.get_hypercube_transform"])
prop("C08","Functions resolve every argument to the parameter or value meant for it",
 "A function whose arguments are values, constants, parameters or nested functions is evaluated with each argument resolved to the call's explicit value if given, else the parameter's value in the point, else the constant's value, else the declared value, at every nesting level, with arguments of different levels never confused. Hierarchical priors use the current values of their hyperparameters, and joint sampling draws every parameter once, hyperparameters first, so that a shared hyperparameter has a single value in the sample.",
 ["configurations","inputs"],"every nesting of functions, every mixture of argument kinds and of equal keyword names at different levels",
 "Tests nest functions once, with distinct keyword names.",
 [S+"parameter.py",S+"selections.py"],
 [("Function.__call__",S+"parameter.py"),("sample/_sample",S+"parameter.py"),("function decorator",S+"parameter.py")],
 ["Function(...)(params=...)","Parameter.get_pdf","parameter.sample"])
prop("C09","Selections partition TOAs as documented and apply parameters per group",
 "Each selection yields for every documented label exactly the TOAs it describes (all, backend, front end, band, telescope, frequency range, index, NANOGrav or custom names, first or second half), in the pulsar's time order, for unsorted and mixed-flag data. A signal built with a selection applies each label's parameters to exactly the TOAs of that label and to no other.",
 ["inputs","configurations"],"every assignment of flags, telescopes, frequencies and times to TOAs and every selection and its arguments",
 "Selection tests need missing data files and use the flags of one pulsar.",
 [S+"selections.py",S+"white_signals.py",S+"gp_signals.py",S+"deterministic_signals.py"],
 [("selection functions",S+"selections.py"),("Selection.__call__/masks",S+"selections.py"),("_do_selection",S+"gp_signals.py")],
 ["Selection(f)(psr).masks","Signal.get_ndiag/get_delay/get_basis"])
prop("C10","White-noise variances follow the documented EFAC/EQUAD convention",
 "The white-noise variance of every TOA is the sum over all white-noise signals of efac^2 (toaerr^2 + 10^(2 log10_t2equad)) for measurement noise, efac^2 toaerr^2 when no EQUAD is given, and 10^(2 log10_tnequad) for TNEQUAD noise, with the parameters of the group the TOA belongs to. TOAs outside all groups of a signal get no contribution from it.",
 ["inputs","configurations"],"all TOA errors, parameter values, selections and combinations of signals",
 "White-noise tests need missing data files and use one data set.",
 [S+"white_signals.py",S+"signal_base.py"],
 [("combined_ndiag/efac_ndiag/tnequad_ndiag",S+"white_signals.py"),("SignalCollection.get_ndiag",S+"signal_base.py")],
 ["Signal.get_ndiag","SignalCollection.get_ndiag"])
prop("C11","All ECORR implementations represent the same epoch-correlated covariance",
 "The four ECORR kernel methods, combined with any white noise, represent diag(N) plus 10^(2 log10_ecorr) on every pair of TOAs of the same group and epoch, where an epoch is at least two TOAs each less than one second after its first TOA, and the ECORR basis model has the same covariance in its marginal form. Their solves (vector or matrix right-hand side, with or without a left factor, as supported) and log determinants equal the exact ones for sorted and unsorted TOAs and for pulsars with no multi-TOA epoch.",
 ["inputs","configurations"],"all TOA times including epoch edges, all groups, all methods and all shapes of right-hand side",
 "ECORR tests need missing data files and use one regular pattern of epochs.",
 [S+"white_signals.py",S+"signal_base.py",S+"utils.py",S+"gp_signals.py"],
 [("EcorrKernelNoise",S+"white_signals.py"),("ShermanMorrison/BlockMatrix/csc_matrix_alt",S+"signal_base.py"),("create_quantization_matrix/quant2ind",S+"utils.py")],
 ["get_ndiag(...).solve","create_quantization_matrix","EcorrBasisModel"])
prop("C12","Combining basis columns never changes the modelled covariance",
 "For every set of Gaussian-process signals in a pulsar model, with column sharing on or off for each, varying basis parameters or not, and diagonal or dense priors, the combined basis T and prior phi reported by the model satisfy T phi T' = sum over signals of their own F phi F', and every signal's columns are in T. Columns are shared only between different signals, when equal and sharing is on.",
 ["inputs","configurations"],"every multiset of signals with equal, partially equal or repeated columns, in every order, and every parameter point",
 "Tests cover two signals sharing all columns; collisions need repeated columns, partial overlap or three signals.",
 [S+"signal_base.py",S+"utils.py"],
 [("_combine_basis_columns",S+"signal_base.py"),("KernelMatrix.add",S+"utils.py")],
 ["SignalCollection.get_basis","SignalCollection.get_phi"],
 [("column index map","which combined column each signal column uses",S+"signal_base.py")])
prop("C13","Timing-model marginalization is the same by every route and in any order",
 "For every design matrix of full column rank, the likelihood with the marginalizing timing model equals the one with the plain timing model of the same normalization, which has prior variance 10^40 on every column (raw, normalized to unit norm or given norms, or orthonormalized), with excluded columns left out. The result does not depend on where in the sum the timing model is placed or on which other signals are present.",
 ["inputs","configurations"],"all design matrices, normalizations, exclusions, positions in the sum and companion signals",
 "Tests compare the two on one data set that is missing here, with one fixed order of signals.",
 [S+"gp_signals.py",S+"utils.py",S+"signal_base.py"],
 [("MarginalizingNmat",S+"gp_signals.py"),("normed_tm_basis/unnormed_tm_basis/svd_tm_basis/tm_prior",S+"utils.py")],
 ["PTA.get_lnlikelihood","MarginalizingTimingModel","TimingModel"])
prop("C14","Coefficient-based processes give the hierarchical form of the same model",
 "A Gaussian process modelled through its coefficients contributes the delay F c, no basis and no prior covariance; its coefficients are free parameters with one entry per basis column, and their log prior is the normalized Gaussian density with the process prior at the current hyperparameters (flat for timing models). Likelihood plus prior of the hierarchical model thus equals the joint density whose marginal is the likelihood of the ordinary model.",
 ["inputs","configurations"],"all bases, priors, selections, coefficients and hyperparameters, including varying basis parameters",
 "One test with missing data compares a few points for one model.",
 [S+"gp_signals.py",S+"signal_base.py",S+"parameter.py"],
 [("BasisGP(coefficients=True)",S+"gp_signals.py"),("GPCoefficients",S+"parameter.py")],
 ["PTA.get_lnlikelihood","PTA.get_lnprior","Signal.get_delay"])
prop("C15","Conditional means and draws follow the posterior of the coefficients",
 "Given parameters, the conditional mean of all Gaussian-process coefficients is (phi^-1 + T'N^-1 T)^-1 T'N^-1 r, labelled signal by signal, draws scatter about it with covariance (phi^-1 + T'N^-1 T)^-1, and processes are basis times coefficients. Both conditional interfaces agree, for single pulsars and for correlated arrays, and leave the given parameters unchanged.",
 ["inputs","configurations"],"all models with distinct bases, all parameter points, all inversion methods, correlated or not",
 "Tests use one missing data set and check shapes or one mean.",
 [S+"utils.py",S+"signal_base.py"],
 [("ConditionalGP",S+"utils.py"),("get_coefficients",S+"utils.py")],
 ["ConditionalGP.get_mean_coefficients/sample_coefficients/get_mean_processes/sample_processes","utils.get_coefficients"])
prop("C16","Pulsar arrays stay aligned through sorting, flags and filtering",
 "Every per-TOA array of a pulsar (times, site times, residuals, errors, frequencies, design matrix, flags, backend flags, telescope, pulsar direction, planet and sun vectors) lists the same TOAs in the same order: stable time order when sorting is on, input order otherwise. Flags set by the user come back as given, filtering keeps exactly the TOAs inside the closed interval in all arrays and drops only all-zero design columns with their names, and backend flags follow the ranking group, g, sys, i, f, then fe with be.",
 ["inputs","histories"],"every order of TOAs including equal times, every flag assignment and every sequence of flag setting and filtering",
 "The pulsar tests need missing packages or data and look at single arrays.",
 ["enterprise/pulsar.py"],
 [("sort_data/isort/iisort","enterprise/pulsar.py"),("filter_data/set_flags/backend_flags","enterprise/pulsar.py")],
 ["Pulsar.toas/.../flags/backend_flags","Pulsar.filter_data","Pulsar.set_flags"])
prop("C17","Shared-memory pulsars keep their data and release it exactly once",
 "A deflated pulsar, in this process or after pickling into others, inflates to arrays with the values it had when it was deflated, as often as it is inflated, also while other processes come and go. The shared memory exists from deflation until the pulsar is destroyed explicitly, which removes all of it, and destroying one pulsar does not affect any other.",
 ["schedules","histories"],"every interleaving of deflate, pickle, inflate, process exit and destroy in any number of processes",
 "The single test deflates and inflates one pulsar in one process, in one order.",
 ["enterprise/pulsar_inflate.py","enterprise/pulsar.py"],
 [("memmap","enterprise/pulsar_inflate.py"),("deflate/inflate/destroy","enterprise/pulsar.py")],
 ["Tempo2Pulsar.deflate/inflate/destroy","pickle"])
prop("C18","Saved pulsars load back with the same data",
 "A pulsar saved to a feather file loads back with the same name, times, residuals, errors, frequencies, design matrix, flags, telescope, positions, planet vectors, fit and set parameters, DM data and noise parameters, whatever the names and types of its flags and parameters. A pulsar pickled to a file loads back equal to the original as well.",
 ["inputs","histories"],"all pulsar contents, including names that resemble the file's own column names, and repeated save/load cycles",
 "The test reads one stored file and never writes one.",
 ["enterprise/pulsar.py"],
 [("FeatherPulsar.save_feather/read_feather","enterprise/pulsar.py"),("to_pickle","enterprise/pulsar.py")],
 ["Pulsar.to_feather","FeatherPulsar.read_feather","Pulsar.to_pickle","Pulsar(...)"])
prop("C19","Wideband timing models weigh DM measurements exactly",
 "With wideband data the model equals the joint Gaussian model of TOAs and DM measurements with variances dmefac^2 (dme^2 + 10^(2 log10_dmequad)) and offsets dmjump per group, marginalized over the timing parameters: prior variance of each DMX parameter, DM delay and extra prior term are those of the weighted mean of its interval. Intervals are half open, jumps of the reference group are zero, and unsupported inputs are rejected.",
 ["inputs","configurations"],"all DM measurements, errors, DMX intervals, selections, parameter values and frequencies",
 "The wideband tests need missing data.",
 [S+"gp_signals.py"],
 [("WidebandTimingModel",S+"gp_signals.py")],
 ["WidebandTimingModel.get_phi/get_delay/get_logsignalprior/get_dm/get_dme/get_mean_dm","PTA.get_lnlikelihood"])
prop("C20","Composition is a faithful, order-independent algebra of models",
 "Adding signals, collections and arrays in any grouping or order gives the same free parameters, covariance and likelihood, with pulsars and signals accessible by position, name and identifier in the order they were added and operands left unchanged. Models built from the same definition for several pulsars are independent of each other except for shared parameters.",
 ["configurations","histories"],"every way of building the same model, any order and grouping, reuse of the same definitions for several pulsars",
 "Tests build each model in a single way.",
 [S+"signal_base.py"],
 [("MetaSignal/MetaCollection/SignalCollection/PTA __add__",S+"signal_base.py"),("__getitem__/keys/items/get_signal",S+"signal_base.py")],
 ["Signal + Signal","SignalCollection + SignalCollection","PTA + PTA","PTA[...]"])
prop("C21","Deterministic delays follow their documented waveforms on the right TOAs",
 "Deterministic signals subtract from the residuals the documented waveform evaluated with the current parameters on the TOAs of each selection label; all deterministic signals add. The burst-with-memory delay and the solar-system ephemeris delay (frame rotation, planet masses, orbital elements; interpolated per epoch when asked) match their formulas for every parameter value and geometry, and the linearized ephemeris Gaussian process is their gradient.",
 ["inputs","configurations"],"all parameter values, burst times, sky positions, TOA sets and selections",
 "Tests evaluate each waveform at one parameter point.",
 [S+"deterministic_signals.py",S+"utils.py"],
 [("Deterministic/PhysicalEphemerisSignal",S+"deterministic_signals.py"),("bwm_delay/create_gw_antenna_pattern/physical_ephem_delay/createfourierdesignmatrix_physicalephem",S+"utils.py")],
 ["Signal.get_delay","PTA.get_delay","bwm_delay","physical_ephem_delay"])
prop("C22","Fourier bases and power spectra follow their definitions",
 "Each Fourier-type basis contains, for the frequencies implied by its arguments (multiples of 1/Tspan, linear, logarithmic or explicit), sine and cosine columns with the documented chromatic, envelope or directional scaling and reproducible phase shifts, and reports the frequency of every column. Each spectrum gives for every column the documented prior variance at that frequency with its bin width, and common processes without explicit span use the span of all pulsars of the model.",
 ["inputs","configurations"],"all times, radio frequencies, numbers of modes, spans, limits, spacings, seeds and spectral parameters",
 "Tests compare a few parameter sets with copies of the same formulas.",
 [S+"gp_bases.py",S+"gp_priors.py",S+"gp_signals.py",S+"utils.py"],
 [("createfourierdesignmatrix_*",S+"gp_bases.py"),("powerlaw/turnover/free_spectrum/...",S+"gp_priors.py"),("FourierBasisGP/FourierBasisCommonGP",S+"gp_signals.py")],
 ["basis and prior functions","Signal.get_basis","Signal.get_phi"])
prop("C23","Loading pulsars restores the environment and counts every observation",
 "Loading a pulsar from par and tim files leaves the working directory of the process as it was, whether loading succeeds or fails, and passes file names and observation limits that cover every TOA of the tim file including nested INCLUDE files to the timing package. The kind of input (par and tim files in either order, timing objects, feather file) alone decides the reader, and impossible inputs are rejected.",
 ["inputs","fault_sequences"],"every layout of tim files, comments and includes, every input kind, and failure at every step of loading",
 "Loading tests need missing timing packages; failures during loading are never tested.",
 ["enterprise/pulsar.py"],
 [("Pulsar","enterprise/pulsar.py"),("get_maxobs","enterprise/pulsar.py")],
 ["Pulsar(...)","get_maxobs","os.getcwd"])
prop("C24","Overlap reduction and antenna functions are correct for every geometry",
 "The Hellings-Downs, dipole and monopole functions take their documented values for every pair of directions, are symmetric, and have the documented auto-correlation value for identical positions; the anisotropic function combines the given basis with its coefficients and is the isotropic one when they vanish. The antenna pattern functions match their definition for every pulsar and source direction.",
 ["inputs"],"all pairs of pulsar directions, including equal, opposite and orthogonal ones, all source directions and coefficients",
 "Tests evaluate two positions.",
 [S+"utils.py",S+"anis_coefficients.py"],
 [("hd_orf/dipole_orf/monopole_orf/anis_orf",S+"utils.py"),("create_gw_antenna_pattern",S+"utils.py"),("anis_basis/signal_response",S+"anis_coefficients.py")],
 ["hd_orf","dipole_orf","monopole_orf","anis_orf","create_gw_antenna_pattern","anis_coefficients"])
prop("C25","Noise and prior matrices answer like the dense matrices they stand for",
 "Diagonal, block, sparse, Sherman-Morrison, fast Sherman-Morrison and marginalized noise covariances, and sums of them in any supported order, give for every right-hand side and left factor (vectors or matrices) the same products with the inverse, and the same log-determinant, as the dense matrix they represent; adding leaves the operands unchanged. Prior matrices into which vectors and matrices are added or set column by column hold exactly those entries and give the inverse and log-determinant of the resulting matrix.",
 ["inputs","histories"],"all sizes, epochs, orders of adding, right-hand sides and left factors, and sequences of modifications",
 "Tests compare a few kernels of one data set with each other.",
 [S+"signal_base.py",S+"gp_signals.py",S+"utils.py"],
 [("csc_matrix_alt/ndarray_alt/BlockMatrix/ShermanMorrison",S+"signal_base.py"),("MarginalizingNmat",S+"gp_signals.py"),("KernelMatrix",S+"utils.py")],
 ["solve","+","KernelMatrix.add/set/inv"])
prop("C26","Pulsars carry the timing package's metadata in documented units and frames",
 "Whichever timing package describes a pulsar, with planets or without, in equatorial or ecliptic coordinates: times and errors are in seconds, radio frequencies in MHz, planet and Sun vectors in light-seconds and the direction of the pulsar (unit vector, angles and with time) in equatorial coordinates; every observation carries its telescope and the full values of its flags (empty where it has none); fitted parameters start with the offset, set parameters are those not fitted, DM and DMX intervals are those of the model, the distance is found by name with or without prefix and is 1 +- 0.2 kpc otherwise, and the timing package's objects are kept only on request.",
 ["inputs","configurations"],"all combinations of package, names, coordinates, fitted and frozen parameters, units and options",
 "Loading tests need missing timing packages; the units and frames of one stored pulsar are never compared with anything.",
 ["enterprise/pulsar.py",S+"utils.py"],
 [("Tempo2Pulsar/PintPulsar/BasePulsar","enterprise/pulsar.py"),("ecl2eq_vec",S+"utils.py")],
 ["Pulsar.toas/.../planetssb/sunssb/pos/pos_t/pdist/dm/dmx/fitpars/setpars"])
prop("C27","What a model says of itself is what it is",
 "For every model, the summary of an array lists each signal of each pulsar once, in order, with its name, the number of its distinct free parameters, its parameters with type, size and prior arguments, its constants with their current values, and the true shape of its basis and number of selected TOAs; the totals of free, fixed, common and all parameters count each parameter once, whether or not parameters are listed. The short forms of signals, collections and arrays name their identifier, parameters, signals and pulsars. Showing never fails.",
 ["inputs","configurations"],"all models: signals, selections (also with no or several groups), shared parameters, constants set and unset, coefficients",
 "One test prints one summary and compares none of it.",
 [S+"signal_base.py",S+"parameter.py"],
 [("PTA.summary/__repr__",S+"signal_base.py"),("Parameter.__repr__/_argrepr",S+"parameter.py")],
 ["PTA.summary","repr(pta)","repr(signal)","repr(collection)","repr(parameter)"])
prop("C28","Eccentric binaries evolve and radiate as their equations say",
 "For every binary: the rates of eccentricity, orbital frequency and periastron and the right-hand sides of the evolution equations are those of Peters and of Barack and Cutler; the solutions at given times solve these equations from the given start; the amplitudes of the harmonics, from a distance or a given strain, and the plus and cross residuals summed over harmonics up to (not including) nmax, with advancing periastron, are the integrals of the documented waveform. Scalars and arrays are accepted, and no argument is changed.",
 ["inputs"],"all frequencies, masses, mass ratios, eccentricities below one, harmonics, inclinations and times",
 "Tests compare a few values with stored numbers.",
 [S+"utils.py"],
 [("get_edot/get_Fdot/get_gammadot/solve_coupled_*",S+"utils.py"),("get_an/get_bn/get_cn/calculate_splus_scross",S+"utils.py")],
 ["get_edot","get_Fdot","get_gammadot","solve_coupled_constecc_solution","solve_coupled_ecc_solution","get_an","get_bn","get_cn","calculate_splus_scross"])
prop("C29","Epoch and interpolation helpers are exact for any arrangement of times",
 "For any times in any order, window and least number: the quantization matrix has one column of zeros and ones per epoch, in time order, where an epoch holds exactly the observations less than the window after its first one, and only epochs with the least number of observations appear; indices and slices name exactly these observations, slices exactly where they are adjacent. The linear interpolation basis reproduces straight lines at every time, with nodes a step apart starting at the first time. The stabilised design matrix has normalised columns, or orthonormal ones with the same span. Arguments are left as they were.",
 ["inputs"],"all arrangements of times (ties, exact multiples of the window, any order), windows and least numbers",
 "Tests use the times of one pulsar.",
 [S+"utils.py"],
 [("create_quantization_matrix/quant2ind/indices_from_slice",S+"utils.py"),("linear_interp_basis",S+"utils.py"),("create_stabletimingdesignmatrix",S+"utils.py")],
 ["create_quantization_matrix","quant2ind","indices_from_slice","linear_interp_basis","create_stabletimingdesignmatrix"])
prop("C30","Errors of the solar-system ephemeris displace the Earth as documented",
 "For every set of observation times, planet positions and pulsar directions: conversions between ecliptic and equatorial coordinates are the rotations by the obliquity and undo each other; Euler rotations and the drift of the frame (in radians per year from 2010 on, about the pole of the ecliptic, with positions given in either frame and an optional offset) turn every position as documented; the delay is the change of the projection of the Earth's position on the pulsar's direction at every observation, from frame drift, mass errors times the planets' positions and perturbed orbital elements of Jupiter and Saturn interpolated in time; the linearized process has the gradients of this delay as columns, with the given prior widths, without the excluded ones; the Fourier process of positions has the three components of the direction times sine and cosine. No argument is changed.",
 ["inputs","configurations"],"all times, positions, directions, perturbations, frames, subsets of perturbations and orbital-element models",
 "Tests need missing data files; one pulsar and default parameters are used.",
 [S+"utils.py",S+"deterministic_signals.py",S+"gp_signals.py",S+"gp_bases.py"],
 [("ecl2eq_vec/eq2ecl_vec/euler_vec/ss_framerotate",S+"utils.py"),("physical_ephem_delay/createfourierdesignmatrix_physicalephem",S+"utils.py"),("PhysicalEphemerisSignal",S+"deterministic_signals.py"),("FourierBasisCommonGP_ephem/FourierBasisCommonGP_physicalephem",S+"gp_signals.py")],
 ["ss_framerotate","euler_vec","ecl2eq_vec","physical_ephem_delay","createfourierdesignmatrix_physicalephem","createfourierdesignmatrix_ephem","PhysicalEphemerisSignal.get_delay","FourierBasisCommonGP_physicalephem","FourierBasisCommonGP_ephem"])
prop("C31","Unsupported requests are refused with an error, all others answered",
 "For every request the library either supports it and answers, or refuses it with an error; it never answers something else silently, and the refusal leaves the model answering as before. Refused are exactly: a timing model by singular values with other than the default scaling; ECORR methods other than the four documented; densities and draws of a log-uniform amplitude (LinearExp) whose upper bound does not exceed the lower one in every component; densities of a parameter without a name; user-defined parameters without prior (and draws or quantiles without sampler or quantile function); quantiles of correlated normal vectors; inversion methods other than cliques, partition, sparse; a common process with coefficients but no time span; the prior of a common process for one pulsar alone; sums of two marginalizing matrices; removed functions; coefficients of timing-model parameters without their pulsar; and coefficients of processes that share columns with another process.",
 ["inputs","configurations"],"all requests in the stated families, with all choices of bounds, methods, models and compositions of processes",
 "Tests check a handful of refusals, each with a single input.",
 [S+"gp_signals.py",S+"white_signals.py",S+"signal_base.py",S+"parameter.py",S+"utils.py"],
 [("TimingModel/MarginalizingTimingModel",S+"gp_signals.py"),("EcorrKernelNoise",S+"white_signals.py"),("LinearExpPrior/LinearExpSampler/UserParameter/Parameter",S+"parameter.py"),("BaseSignal.get_phiinv/PTA.get_phiinv",S+"signal_base.py"),("get_coefficients/ConditionalGP",S+"utils.py")],
 ["LinearExpPrior","LinearExpSampler","EcorrKernelNoise","MarginalizingTimingModel","TimingModel","get_coefficients","ConditionalGP","UserParameter","MarginalizingNmat.__add__","FourierBasisCommonGP"])
prop("C32","Models leave pulsars, given values, earlier results and each other alone",
 "Whatever is built over a pulsar and asked of it, the data of the pulsar stay what they were: times, residuals, errors, frequencies, flags, design matrix, positions and planets, also of pulsars read back from files, which hand out their arrays and not copies. Several models over the same pulsars, of the same or of separate definitions and asked in any order, each answer as if they were alone. The dictionaries and vectors of parameter values that a model is given are never changed, and what a model returned earlier never changes either.",
 ["histories","configurations"],"all models, all sequences of questions to several models over the same pulsars",
 "Tests build pulsars anew or never look at them again; their pulsars copy every array that is read.",
 [S+"signal_base.py",S+"gp_signals.py",S+"gp_bases.py",S+"utils.py",S+"white_signals.py",S+"deterministic_signals.py","enterprise/pulsar.py"],
 [("SignalCollection/PTA",S+"signal_base.py"),("TimingModel/MarginalizingTimingModel/WidebandTimingModel/BasisGP",S+"gp_signals.py"),("normed_tm_basis/createfourierdesignmatrix_*/ConditionalGP/get_coefficients",S+"utils.py"),("FeatherPulsar",  "enterprise/pulsar.py")],
 ["PTA","SignalCollection","FeatherPulsar","Pulsar properties","PTA.get_lnlikelihood/get_TNT/get_phi/get_phiinv/...","ConditionalGP","get_coefficients"])
out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p)+"\n" for p in P))
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
