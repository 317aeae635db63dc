"""The properties, and how each is decided. docs/gen.py turns this into properties.jsonl, MANIFEST.json and DESIGN.md."""

NOTES = ("Every check is './check ID': a Python property-based search (Hypothesis) over generated data, deterministic in "
         "VERIF_SEED, that mirrors and builds /repo's working tree in a scratch directory of its own and removes it. "
         "known_findings.txt lists repaired and unrepaired defects.")

CORE = "harmonisation_eiv/harmonisation/core/matchup/"
IO = CORE + "matchupIO/"
PROC = CORE + "matchupProcessing/"
TB = CORE + "matchupToolbox/"
GN = TB + "harmonisation/harmonisationProcessing/harmonisation_eiv/"
SD = "harmonisation_eiv/harmonisation/sensor_data/"
F = "harmonisation_meiv_demo/src/main/fortran/gpl/"

PBT = "property-based testing (Hypothesis): "
PROPS = []


def P(id, title, statement, over, for_all, why, mechanism, observe, technique, design, level_note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, why=why, mechanism=mechanism,
                      observe=observe, technique=PBT + technique, design=design, level_note=level_note, **kw))


P("P01", "Opening match-up files gives a faithfully indexed data set",
  "Opening any valid set of match-up files (one path, a list of paths, a directory or a list of directories) gives one data "
  "object whose values, K values, times (UTC), track indices and additional variables are those of the files, and whose index "
  "describes where each series, sensor and covariate is. Files of a list are in its order, netCDF files of a directory in that "
  "of their names. Data blocks are ordered by covariate, then series, then member of "
  "the pair, and sensors are numbered in the order the files first name them. The switches that leave parts unread "
  "leave out those parts only. What is opened does not depend on what was opened before.",
  ["inputs", "configurations"],
  "every number of sensors, series, covariates and match-ups, order of files, form of the path argument, presence of "
  "optional and additional variables, fill values, data types, names of files and sensors, and switch",
  "The tests open two or three fixed files; the order and offsets of blocks are right for those by coincidence of equal "
  "covariate counts, and directories and lists of directories, fill values and switches are hardly reached.",
  [("opening and concatenation of the files of a data set", IO + "MatchUpReader.py"),
   ("in-memory object and its empty defaults", IO + "MatchUp.py")],
  ["open_matchup and the attributes and index of the object it returns"],
  "random match-up networks written with netCDF4, opened, and compared with the model they were written from",
  "A generated model of 1-4 files (2-4 sensors, 1-5 covariates, 1-9 match-ups, all uncertainty types, any optional and "
  "additional variables, f4 or f8) is written by the harness's own writer, so the oracle shares no code with the "
  "reader; every attribute and index entry is recomputed from the model. About 700 files sets per quick run.",
  "Random exploration against an independent model of the files: mostly small data sets (4 series of 9 match-ups), some of up to 16 "
  "series, 13 covariates or thousands of match-ups.")

P("P02", "Opened data sets carry the uncertainties and correlations of the files",
  "Every data block of an opened data set has the error type the file gives its covariate, with the file's random and "
  "systematic uncertainties, and for structured errors the W matrix and u vector the file assigns to it. Covariates that "
  "share a W matrix or u vector in a file share it in the data set, and the systematic error of one covariate of one sensor is "
  "one and the same effect in all series. The uncertainty of K combines its two components in quadrature.",
  ["inputs"],
  "every assignment of the four error types, every pattern of sharing and numbering of W matrices and u vectors, every "
  "number of series",
  "The tests read a handful of fixed assignments, each with matrices numbered in order of use.",
  [("building of the uncertainty objects and W and u matrices of the data set", IO + "MatchUpReader.py"),
   ("uncertainty object", IO + "Uncertainty.py")],
  ["open_matchup: uncertainties, uncertainties of K, W matrices and u vectors of its object"],
  "random error structures written to files, opened, and compared matrix by matrix with the model",
  "Generated uses (also W and u shared in different patterns, numbered in any order, between both sensors of a pair); W as "
  "dense matrices computed from the model.",
  "Random exploration; mostly W matrices of at most 9 rows and 13 columns, some of thousands of rows.")

P("P03", "Written match-up files hold what they were given and read back",
  "A match-up file written by the package's writer or by the tools' writer holds exactly the data, names, uncertainties, "
  "additional variables and W and u matrices it was given, also over a file of that name that exists, and what it was given is unchanged. Adding W matrices to a file that exists changes nothing else "
  "in it. Files so written are accepted by the readers and give the same data.",
  ["inputs"],
  "every shape of data, set of optional arguments, and list of W matrices and u vectors",
  "The tests write one fixed example per writer and compare a few variables.",
  [("writer of the package", IO + "MatchUpWriter.py"), ("writers and W variables of the tools", "tools/W_matrix_functions.py")],
  ["files written, read with netCDF4 and with open_matchup"],
  "round trip of generated data through the writers, netCDF4 and the reader",
  "Round trip through the file compared element by element with what was passed; the appended file compared variable by "
  "variable with its state before.",
  "Random exploration of small files, and some of tens of thousands of match-ups.")

P("P04", "Accessors return the data of the series, sensor and covariate asked for",
  "Asked for a match-up series, a sensor and where applicable a covariate or additional variable, a data set returns "
  "that sensor's data of that series: values, extremes, times, track indices, additional data; its text has the numbers, first "
  "and last data and types of uncertainty of each series. Sensor descriptions "
  "(parameters, constants, models and adjustment models) supplied when opening are attached to the sensors they name, in "
  "the data set's sensor order, and a sensor without an adjustment model gets the identity with unit derivative; the "
  "descriptions are unchanged.",
  ["inputs", "configurations"],
  "every network of sensors (sensors first in some series and second in others, several series of one pair), series, and "
  "collection of sensor descriptions, set once or again",
  "The tests use each accessor on one data set where a sensor is always on the same side.",
  [("accessors", IO + "MatchUp.py"), ("attachment of sensor data", IO + "MatchUpReader.py")],
  ["get... accessors and sensor attributes of an opened data set"],
  "every accessor for every series and sensor of generated networks, against the model of the files",
  "All accessor results compared with columns of the model; generated sensor descriptions with distinct recognisable "
  "functions.",
  "Random exploration of small networks, and some of up to 16 series or 13 covariates.")

P("P05", "Sampling and simulation return consistent subsets and copies of a data set",
  "Sampling a data set returns, for each series, distinct match-ups of that series with all their data (values, K, times, "
  "track indices, uncertainties) kept together, no more than asked for, and for structured errors only match-ups "
  "that share no error. Simulating a data set with a requested number of match-ups gives that size with values drawn "
  "from the range of the data they come from. Both keep parameters, constants, models and adjustment models of the sensors. The data set sampled or simulated from is not changed.",
  ["inputs", "configurations"],
  "every data set, sampling fraction, limit on size, and state of the random generator",
  "The tests of these processors cannot be imported by the test suite, and they use one data set each.",
  [("sampling to independent match-ups", PROC + "sample2ind/Sample2Ind.py"),
   ("choice of match-ups without shared errors", PROC + "sample2ind/cython_lib_sample2ind.pyx"),
   ("simulation", PROC + "simulate_matchup/SimulateMatchUp.py")],
  ["data sets returned by the sampling and simulation processors"],
  "sampled rows identified through their K values and checked against the files, for any W structure and random state",
  "Validity predicate: every sampled match-up is a distinct row of the model, in all variables at once; with W "
  "matrices no column is used twice, and the sample is maximal where it is smaller than asked for.",
  "Random exploration, also of many series and thousands of match-ups; the random state is a generated integer.")

P("P06", "Transformation to independent, normalised variables is the documented map",
  "Transforming a data set scales random-error data and K by their uncertainties, replaces data with structured errors by the "
  "independent variables that their averages are made of, and appends one zero per systematic effect; reversing recombines "
  "random, systematic and averaged components. Transforming and reversing a data set of rolling averages returns the "
  "data. The compiled routine that returns one sensor's state variables agrees with the reverse transformation, and inputs "
  "are not changed.",
  ["inputs"],
  "every mixture of error types, sharing of systematic effects, W matrix and vector of transformed variables",
  "The tests of this processor cannot be imported by the test suite, and fix one data set with zero systematic errors.",
  [("transformation and reverse", PROC + "transform2normind/Transform2NormInd.py"),
   ("compiled state variables", GN + "cython_lib_GN_algo.pyx")],
  ["data sets returned by the transformation processor and its reverse", "state variables of a sensor"],
  "arbitrary transformed vectors reversed and compared with a dense reference model; round trips of rolling averages",
  "Dense reference: X = W(u v + s), block offsets recomputed from the files' model; single precision tolerance 2e-5 of "
  "the magnitude of summed terms.",
  "Random exploration, also of up to 16 series or 13 covariates; W matrices of at most about 20 columns.")

P("P07", "Measurands, adjusted measurands and K are those of the sensor models",
  "For any data set with sensor models, the evaluated measurand of each match-up is the sensor's model of that match-up's data, "
  "the sensor's parameters and constants, and its track indices and times; derivatives, uncertainties from a parameter "
  "covariance, adjusted measurands and their derivatives are those of the models; K is the adjusted measurand of the second "
  "sensor minus that of the first. A selection of match-up series gives the rows of those series in the order named.",
  ["inputs", "configurations"],
  "every network of sensors with any numbers of parameters and constants, selection of series, and combination of outputs asked for",
  "The tests of these functions cannot be imported by the test suite, and use one data set without selections.",
  [("evaluation of measurands and K", TB + "utils/matchup_maths.py")],
  ["evaluate_measurand, evaluate_adjusted_measurand, evaluate_K"],
  "measurands of generated sensor models evaluated for generated selections and compared with direct evaluation",
  "Direct evaluation in double precision from the model of the files; uncertainties from J V J'; again with other parameters.",
  "Random exploration; mostly up to 4 series of 7 match-ups, some of up to 16 series or 13 covariates.")

P("P08", "Sensor models are their documented equations with exact derivatives",
  "Each set of sensor data gives, for each of its sensors, a model whose measurand is the documented measurement equation of "
  "its instrument, parameters (scaled where the set says so) and constants, whose derivatives are those of that measurand with "
  "respect to all state variables and parameters, and whose numbers and names of variables, number of parameters and constants are those of the sensor. Match-ups are evaluated "
  "independently of each other, and what a model is given is unchanged. Reference sensors return their measurand.",
  ["inputs", "configurations"],
  "every sensor of every set, all state variables, parameters, and track indices",
  "No test imports the sensor data.",
  [("AVHRR models", SD + "AVHRR"), ("HIRS models", SD + "HIRS"), ("MW models", SD + "MW"), ("simulated sensors", SD + "test_sim")],
  ["sensor_model functions of SENSOR_DATA"],
  "value compared with the equations, derivatives with complex-step differentiation of them, at generated points",
  "Independent formulation of each equation; complex step. One listed finding (MW derivatives).",
  "Random exploration of all 35 sets.")

P("P09", "The solver's matrix-free operators are the Jacobian of the problem it states",
  "At any point, the Gauss-Newton solver's residuals are the differences of the variables from the data and of the "
  "modelled from the measured K, in units of their uncertainties; its products with J P and its transpose are those of the exact "
  "derivative of these residuals with preconditioner P, for all error types, and hence adjoint; its product with "
  "P'J'J P is their composition. Computing them changes neither the point nor the data.",
  ["inputs"],
  "every data set with any mixture of error types, sensor and adjustment models, preconditioner, point and vector",
  "No test of the solver can be imported by the test suite; its old tests check three fixed vectors.",
  [("operators", GN + "GN_algo.py"), ("measurands", TB + "utils/matchup_maths.py"),
   ("transformation", PROC + "transform2normind/Transform2NormInd.py")],
  ["GNAlgo.calc_f, get_JPx, get_JPTx, calc_Px, calc_Hx, calc_R"],
  "operators applied to generated vectors and to unit vectors, compared with a dense Jacobian",
  "Dense double-precision Jacobian assembled from the model of the files and the analytic derivatives of generated "
  "sensor models; tolerance 5e-5 of the magnitude of summed terms.",
  "Random exploration; up to 4 series of 6 match-ups, 4 covariates.")

P("P10", "The iterative solvers find the solution and report their state truthfully",
  "LSMR returns the least-squares solution, damped or of minimum norm, in the norms given for data and unknowns; MINRES "
  "solves symmetric systems, possibly indefinite, singular (with a right-hand side in the range), shifted or preconditioned; "
  "whatever the units of matrix and right-hand side, also zero and eigenvectors. The reported norms, histories, estimates, "
  "limits and reason to stop are those of the returned solution; a solver may be used repeatedly; asymmetric matrices and "
  "unfit preconditioners are reported.",
  ["inputs"],
  "every matrix up to condition number 1000, right-hand side, their units, damping, shift, weights, preconditioner, tolerances",
  "There are no tests of these solvers.",
  [("LSMR", GN + "pykrylov_lsmr.py"), ("MINRES", GN + "pykrylov_minres.py"), ("symmetry check", GN + "pykrylov_tools_utils.py")],
  ["LSMRFramework.solve, Minres.solve"],
  "matrices with drawn spectra solved and compared with dense factorisations",
  "numpy lstsq and pseudo-inverse in the norms given; norms, gradients and steps of all iterates recomputed; the norm and "
  "condition of the matrix bounded by its singular values. MINRES for incompatible singular systems is a known finding.",
  "Random exploration; up to 15 equations.")

P("P11", "The Gauss-Newton solver finds the least-squares solution",
  "For a transformed data set the solver returns the parameters, systematic errors and residuals that minimise the sum of squares of "
  "the errors of all data and of K in units of their uncertainties, from any start and with any positive definite "
  "preconditioner, whatever the units of the parameters; the covariance is the inverse of the curvature (zeros if not asked for); cost, degrees of freedom and "
  "probability are those of the solution; residuals are in the units and the order of the data. The data are unchanged, and "
  "the saved state of the solver, opened again, gives the same solution.",
  ["inputs", "configurations"],
  "every data set that determines the parameters, start, preconditioner, with and without covariance or saved state",
  "No test of the solver can be imported by the test suite; a test fixes one data set and its numbers.",
  [("solver", GN + "GN_algo.py"), ("result", GN + "HarmonisationEIV.py"), ("transformation", PROC + "transform2normind/Transform2NormInd.py")],
  ["GNAlgo.run, save, open, calculate_parameter_covariance_matrix_ij"],
  "generated harmonisation problems with known parameters and noise, solved and compared with dense Gauss-Newton iteration",
  "Dense Gauss-Newton iteration in double precision from the data of the files; tolerance 2 % of a standard uncertainty. "
  "Problems whose condition exceeds 300 are skipped. Models nonlinear in their parameters, starts many standard deviations away "
  "and preconditioners wrong by orders of magnitude make up to ten iterations necessary.",
  "Random exploration; up to 4 series of 20 match-ups.")

P("P12", "The preconditioner solves the weighted least-squares problem",
  "For sampled data the preconditioner returns the parameters at which the differences of modelled and measured K, weighted with "
  "the inverse of their covariance (including what errors common to match-ups contribute), are stationary, the covariance "
  "matrix of that solution, and the sensors the parameters are of, whatever the units of the parameters. Data and first guess are unchanged.",
  ["inputs"],
  "every sampled data set that determines the parameters, with any sensors, covariates and systematic effects, and start",
  "No test of the solver can be imported by the test suite.",
  [("solver", PROC + "harmonisation_eiv_pc/pc_algo.py"), ("result", PROC + "harmonisation_eiv_pc/HarmonisationEIVPC.py")],
  ["PCAlgo.runPC, get_f, get_Ja, calc_LK; HarmonisationEIVPC.run"],
  "generated problems solved and compared with dense weighted least squares",
  "Covariance of K as I + J J' from the dense Jacobian of the model of the files; stationarity of the returned parameters.",
  "Random exploration; up to 4 series of 16 match-ups.")

P("P13", "A saved harmonisation result is the same result when opened",
  "Parameters, their sensors and covariance, statistics, attributes, additional variables and residuals of every match-up "
  "series that are saved are those that are opened, from the folder or the file, with or without residuals, among other files; "
  "an opened result can be saved again; statistics may be zero, and data sets, files and folders have any names. Residual files name the sensors whose residuals they hold. A folder with no "
  "or several results is an error. Results do not share what they hold, and opening one does not depend on others opened before.",
  ["inputs", "histories"],
  "every result: any parameters, statistics or none, additional variables, and series, several of the same sensors too",
  "The tests open one file that is committed with them.",
  [("result files", TB + "harmonisation/harmonisationIO/HarmonisationResult.py")],
  ["HarmonisationResult.save, open, the files"],
  "round trip of generated results through files, which are also read with netCDF4 directly",
  "The generated result.",
  "Random exploration; up to 4 sensors and 5 series.")

P("P14", "A harmonisation run writes the least-squares solution of the files it is given",
  "For a folder of match-up files and sensor data with first guesses the run writes one result, named after software, version, "
  "tag, job and data set, with the parameters, covariance (zeros if not asked for), cost and systematic errors of the "
  "least-squares solution and the residuals of every match-up series. The solution does not depend on the random sample for the "
  "preconditioner, the amount of output, or whether a run starts from a preconditioner or solver state saved by another. "
  "What is saved as preconditioner is what was used. The data set is not changed, and runs do not depend on runs before.",
  ["inputs", "configurations", "histories"],
  "every data set that determines the parameters, first guess, options of the run, and sequence of two runs",
  "No test runs the pipeline; its package cannot even be imported by the tests.",
  [("operator", "harmonisation_eiv/harmonisation/tools/HarmonisationOp.py"), ("pipeline", GN + "HarmonisationEIV.py"),
   ("preconditioner", PROC + "harmonisation_eiv_pc/HarmonisationEIVPC.py"),
   ("result", TB + "harmonisation/harmonisationIO/HarmonisationResult.py")],
  ["HarmonisationOp.run; the files it writes"],
  "generated data sets written to files, run once or twice, result files read with netCDF4 and compared with dense Gauss-Newton iteration",
  "As P11, from the generated files to the result files, also where the operator has run on other data before; cases whose sample "
  "does not determine the parameters are skipped.",
  "Random exploration; up to 3 series of 80 match-ups.")

P("P15", "Command lines and job files run the harmonisation they describe",
  "Every valid command line, with its arguments in any order and spelling, and every job file, runs the operator on the data "
  "set, sensor data and output directory named, with the preconditioner, solver state, covariance and output options given and "
  "no others; paths in job files are relative to the working directory. Combinations that exclude each other, missing and "
  "unknown arguments end with status 2 and run nothing. Messages are shown and logged from the level asked for.",
  ["inputs", "configurations"],
  "every command line and job file of the solver",
  "There are no tests of the command line.",
  [("arguments", "harmonisation_eiv/harmonisation/tools/common.py"), ("program", "harmonisation_eiv/harmonisation/tools/full_eiv_solver.py"),
   ("sensor data", SD + "SensorDataFactory.py")],
  ["parse_cmdline, read_parsed_cmdline, read_job_file, configure_logging; full_eiv_solver.main"],
  "generated command lines and job files, parsed and run with the operator replaced by a recorder",
  "A model of the options computed from the generated case.",
  "Random exploration.")

P("P16", "Averages by period and by bin take every value into account once",
  "Averages by hour, day, month or year are over exactly the values in the period, from its start to before the next, one average "
  "per period from that of the first value to that of the last, NaN for periods without values. Averages and standard "
  "deviations by bin are over exactly the values in the bin, including those at the ends of the range.",
  ["inputs"],
  "every set of values and times or abscissae, in any order and with repeats, period, number of bins and range",
  "The tests average one or two fixed data sets, without values at the edges of periods or bins.",
  [("averages", CORE + "utils/stats.py")],
  ["time_average, bin"],
  "generated values compared with averages computed period by period and bin by bin",
  "A direct definition of the averages; abscissae within rounding of an edge that is not exact are left out.",
  "Random exploration; up to 60 values.")

P("P17", "Rolling averages give W matrices that relate match-ups by shared scanlines",
  "The W matrix made for match-ups whose values are averages over scanlines has, for every match-up and every scanline of its kernel, "
  "the weight of that scanline, in a column that all match-ups sharing the scanline share, and no other elements; "
  "the uncertainty of a column is that of its scanline, the greatest where match-ups give several. Arguments are unchanged.",
  ["inputs"],
  "every set of times in any order with gaps and repeats, kernel and weights, and uncertainties",
  "The tests use a handful of fixed times.",
  [("generator", "tools/generate_w_matrices.py")],
  ["generate_rolling_average_w_matrix"],
  "generated match-up times on jittered scanlines compared with a dense matrix built by scanline number",
  "Dense matrix by scanline number.",
  "Random exploration; up to 25 match-ups, kernels up to 9, and series of tens of thousands.")

P("P18", "The input checker passes valid match-up files and reports every error",
  "Every match-up file as specified passes the input checker unchanged. A file that is not as specified (missing variables or attributes, "
  "other types or dimensions, inconsistent W and u matrices, values that no uncertainty can have, data that are not of the "
  "stated type of error) is reported, without failing, and the program's status tells.",
  ["inputs", "faults"],
  "every valid file, also after files with errors, and every single error of the 43 kinds at any place in it",
  "The tests check a handful of fixed files.",
  [("checker", "tools/harmonisation_input_checker.py")],
  ["main, the program's output and status"],
  "generated valid files, and the same with one generated error, through the checker",
  "The generator knows whether the file is valid.",
  "Random exploration; one error per file.")

P("P19", "AVHRR match-up files are converted to valid files with the same data",
  "For every file of AVHRR match-ups the converter writes six valid match-up files, in the folders of the band (calibration models of "
  "three and four parameters; all errors, without systematic, and without structured errors), with the data, uncertainties, times and "
  "types of the match-ups that have all scanline uncertainties and are not below the temperature limit, in order; W and u matrices "
  "of the scanlines averaged, or, without structured errors, their weighted mean uncertainties; indices in and additional variables "
  "of the original file, with radiances of the band as nominal measurands. The original file is unchanged. Temperatures and "
  "radiances of every instrument, band and shape of array are converted by the band's Planck function and inverse, NaN if they have none.",
  ["inputs"],
  "every file of AVHRR match-ups with a reference sensor or another AVHRR in any band, and every array of temperatures",
  "The tests test the function that finds match-ups with gaps, on two arrays.",
  [("converter", "tools/AVHRR_to_updated_spec.py"), ("radiances", "tools/convert_bt_to_radiance.py"),
   ("W variables", "tools/W_matrix_functions.py"), ("averages", "tools/generate_w_matrices.py")],
  ["main, the files it writes; convertBT.temp2rad, rad2temp"],
  "generated files converted, and the files written read and compared with a model of the conversion",
  "Dense model of the conversion from the generated file; the input checker (P18) on every file written.",
  "Random exploration; up to 18 match-ups, kernels up to 5.")

P("P20", "W matrices added to microwave match-up files are those of their scanlines",
  "Every file of AMSU-B and MHS match-ups in a folder is written to another with W matrices of rolling averages over each sensor's own "
  "scanlines, u matrices of the random uncertainties of its counts and the third covariate, types of error and uses of matrices by "
  "instrument, and no random uncertainties where there are W matrices, so that it passes the input checker; all other data and "
  "attributes are kept, and the original is unchanged. Files of unknown sensors raise ValueError and are not written.",
  ["inputs"],
  "every folder of microwave match-up files, with any pair of instruments or the reference, and any times of match-ups",
  "There are no tests of the tool.",
  [("tool", "tools/MW_add_W_matrices.py"), ("W variables", "tools/W_matrix_functions.py"),
   ("averages", "tools/generate_w_matrices.py")],
  ["main, run, the files written"],
  "generated files processed, and those written compared with dense W matrices and the generated data",
  "Dense W matrices by scanline number; the input checker (P18) on every file written.",
  "Random exploration; up to 9 files of 20 match-ups, and one of thousands.")

P("P21", "Text files of simulated match-ups are converted to files with the same data",
  "The program writes one valid match-up file per pair of sensors, with its rows of the data, the uncertainties and types of error "
  "of each covariate, W matrices of rolling averages over consecutive match-ups where there are structured errors, and the "
  "true parameters. Missing files, and different W or u matrices, which it does not support, are errors. Output is as asked for.",
  ["inputs", "configurations"],
  "every set of text files of the simulation, any types of error and sizes of series, and the program's options",
  "There are no tests of the program, which could not be run.",
  [("program", "tools/pmh2fiduceo.py")],
  ["the program, the files it writes and its output"],
  "generated text files converted by the program, and the files written compared with the generated data",
  "The generated data; the input checker (P18) on every file written.",
  "Random exploration; up to 4 series of 12 match-ups, 7 covariates, and some of thousands of match-ups.")

P("P22", "The Fortran software reads the data of match-ups as the files have them",
  "For every job and set of match-up files the Fortran software has the telemetry of each sensor (all columns, the columns selected, in the "
  "order selected, or, where systematic uncertainties are columns, these too), sensor adjustments and their variances, times and across-"
  "track indices of every step-th match-up, in order, in single precision where the file has singles, with defaults for optional "
  "variables, whatever was read before. Values that are no valid data, and files, sensors and pairs that do not fit, are errors.",
  ["inputs", "configurations", "faults"],
  "every job, every valid file, and every invalid value at any place",
  "The tests run on three files with one job.",
  [("reader", F + "mod_reader.F90"), ("match-ups", F + "mod_matchup.F90"), ("sensors", F + "mod_sensors.F90")],
  ["matchup_read, the module variables after reading"],
  "generated files read by the compiled modules through a driver, and all module data compared with the generated data",
  "The generated data; a driver program (fortran/driver.F90) linked with the modules.",
  "Random exploration; up to 4 sensors of 4 covariates, up to 9 match-ups; run-time checks of the compiler on.")

P("P23", "The Fortran software has the error covariance that files state for each column",
  "Every telemetry column that the Fortran software reads has the type of uncertainty and the error covariance matrices that the file "
  "states for it: diagonal (random), bordered (random and systematic), or banded W and diagonal V (structured), of the match-ups "
  "selected, whatever columns are selected, the order and base of W matrix indices, and what was read or removed before. Jobs that need "
  "more matrices than there is room for, and inconsistent W matrices, are errors.",
  ["inputs", "configurations", "faults"],
  "every job, every valid file, all types of uncertainty",
  "The tests run on three files with one job.",
  [("reader", F + "mod_reader.F90"), ("matrices", F + "mod_matrices.F90")],
  ["matchup_read, the matrices after reading"],
  "generated files read by the compiled modules through a driver, and all matrices compared with dense ones of the generated data",
  "Dense matrices of the generated data.",
  "Random exploration; up to 4 sensors of 4 covariates, up to 30 match-ups; run-time checks of the compiler on.")

P("P24", "Result files of the Fortran software have all results, under names configured",
  "Every set of parameters (values, uncertainties, covariances, correlations, offsets, scale factors, names), sensors (equations, numbers "
  "of parameters, configuration constants), match-up statistics, and every set of residuals is written, in the precision of its "
  "variables, to a file of the name that results from the job and software or is configured, with the dimensions, variables, "
  "attributes, descriptions and units configured, and nothing else; a file of an earlier run is replaced.",
  ["inputs", "configurations"],
  "every size and content of results, and every configuration of names, descriptions, units and files",
  "The tests write one file and do not read it.",
  [("writer", F + "mod_writer.F90"), ("netCDF", F + "mod_nc.F90"), ("names", F + "mod_config.F90")],
  ["write_parameter_dataset, write_residuals_dataset, the files written"],
  "generated results written by the compiled modules through a driver, and the files compared in all they have with the generated data",
  "The generated data and configuration.",
  "Random exploration; up to 9 parameters, 5 sensors, 4 series, 9 residuals; run-time checks of the compiler on.")

P("P25", "The Fortran software does the job that its configuration files describe",
  "For every preferences.nml, run.nml and job (a file, or standard input) each setting has the value it is given last, or else its "
  "default; faulty and unknown settings are errors. Sensors have the numbers, configuration constants, places of parameters and prior "
  "values and covariances they are added with, as long as there is room. The jobs and templates delivered are valid. Messages are shown "
  "from the level configured. The program reads the match-ups of its job and writes its results.",
  ["configurations", "faults"],
  "every combination of configuration files and settings, and every sequence of sensors",
  "The tests run one job.",
  [("configuration", F + "mod_config.F90"), ("sensors", F + "mod_sensors.F90"), ("messages", F + "mod_logger.F90"), ("program", F + "demo.F90")],
  ["config_initialize, add_sensor, log_*; harmonisation-demo and the files it writes"],
  "generated configuration files given to the compiled modules through a driver, and to the program, and compared with a model of namelists",
  "A model of what namelists set; the generated data.",
  "Random exploration; namelists as gfortran reads them.")

P("P26", "The Fortran software writes times as ISO dates",
  "Every Unix time, of fractions of seconds, before 1970 or after 2038, is expressed as the date and time of the Gregorian calendar in "
  "UTC of the second it is in; the present time as the date and time of its time zone.",
  ["inputs"],
  "every time in the years 1 to 9999",
  "There are no tests of dates.",
  [("dates", F + "mod_time.F90")],
  ["iso_date_and_time, get_iso_date_and_time"],
  "generated times, biased to the ends of days, months, years and centuries, given to the compiled module through a driver",
  "Python's calendar.",
  "Random exploration.")

P("P27", "Plots of match-ups and of harmonisation results show the data they are of",
  "For every data set and harmonisation result the K residuals (nominal, harmonised, and of both), measurands, samples and monthly means are those "
  "of the match-ups with the result's parameters, each plot has exactly the points of its series, with their labels, and leaves out "
  "missing values only; averages by state or additional variable are over the match-ups of each bin, and comparisons of calibrations have the "
  "differences and uncertainties of the two sets of parameters. harm_plot and harm_comp_plot write these figures, of the data set and result "
  "they are given, to the folder of plots, and change nothing else.",
  ["inputs", "configurations", "histories"],
  "every data set (sensors of different numbers of variables, series without values, gaps), result with parameters in any order, order of calls, and command line",
  "The tests of this part cannot be imported, as matplotlib is missing; they make single plots and do not look at them.",
  [("plots of results", TB + "harmonisation/harmonisationVis/HarmonisationVis.py"), ("plots of match-ups", CORE + "matchupVis/MatchUpVis.py"),
   ("drawing", "harmonisation_eiv/harmonisation/core/utils/plots.py"), ("programs", "harmonisation_eiv/harmonisation/tools/HarmonisationPlottingOp.py"),
   ("comparison program", "harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py")],
  ["what the plotting functions draw, as a stand-in for matplotlib records it; values of HarmonisationVis"],
  "generated data sets and results plotted with a recording stand-in for matplotlib, compared with the generated data",
  "Measurands of the generated models, and own averages and kernel densities; matplotlib is not installed, so lib/stub stands in for it.",
  "Random exploration; up to 4 sensors, 4 series of 9 match-ups; drawing itself is not checked.")
