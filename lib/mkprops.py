import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=q,meaning=q,where=files[0]) for q in state],observe_at=observe,hook_needed=hook)))
C="sources/core/"
PL="sources/plugins/"
p("P01","Parametrization conversions describe one and the same pair of directions",
 "params::convert() and the to_cartesian/from_cartesian pair map coordinates between any two supported parametrizations so that they denote the same physical pair (view, light): converting to CARTESIAN yields the documented directions (view first), converting from CARTESIAN yields the documented coordinates (half vector = normalised bisector, angles, tangents, projected angles and retro variants by their closed forms), and going to a faithful parametrization and back returns the same pair. The result is finite for every pair of directions in the upper hemisphere, including normal incidence, grazing, coincident and retro-reflecting directions and azimuths across the wrap.",
 ["inputs","configurations"],"all pairs of supported input parametrizations and all pairs of directions of a grid containing the degenerate directions",
 "Two dozen parametrizations give several hundred ordered pairs; the suite exercises only a few of them on a few directions, and every file conversion, every plot and every fit goes through them.",
 [C+"params.h",C+"params.cpp"],[("conversion through six Cartesian coordinates",C+"params.cpp: params::to_cartesian, params::from_cartesian"),("angle helpers",C+"params.h: half_to_cartesian, classical_to_cartesian, rotate_normal, rotate_binormal")],
 ["input coordinates","intermediate Cartesian pair"],["params::convert","params::to_cartesian","params::from_cartesian"])
p("P02","Parametrization names, dimensions and metadata are mutually consistent",
 "For every input or output parametrization the printed name parses back to the same parametrization, unknown names parse to UNKNOWN, and dimension() equals the number of coordinates that conversions read and write. Output conversion copies channels between equal dimensions, spreads one channel over several and averages several into one, and the cosine-weighting predicate agrees with the parametrization.",
 ["configurations","inputs"],"every enumerator of params::input and params::output, all pairs of outputs, and near-miss names",
 "The tables are hand written in several places (enum, name table, switch statements); a test of one name says nothing about the others, and a wrong dimension silently shifts columns of every file written.",
 [C+"params.h",C+"params.cpp"],[("name table",C+"params.cpp: input_map, parse_input, get_name"),("dimension switch",C+"params.cpp: params::dimension"),("output conversion",C+"params.h: params::convert (output)")],
 ["name table"],["params::parse_input","params::parse_output","params::get_name","params::dimension"])
p("P03","Command line arguments are understood by the documented grammar",
 "arguments built from a command line defines exactly the keys given as --key, each bound to the text that follows it (empty when nothing or a token starting with a dash follows, the first binding kept when a key repeats), and a bracketed value may be spread over several tokens and yields every vector or list element in order. Typed getters return the given value, or the caller's default exactly when the key is absent, update() overrides, and the order of independent options never matters.",
 ["programs","inputs"],"all token sequences up to a bound over an alphabet of keys, numbers, negative numbers, bracketed vectors and file names",
 "Options combine freely; the parser has cross-token state (brackets, next-token lookahead) that single examples cannot cover, and a misread option silently changes which data is fitted.",
 [C+"args.h"],[("token scanner",C+"args.h: arguments::arguments(int,char**)"),("typed getters",C+"args.h: get_float, get_int, get_vec, get_vecf, get_vecd"),("configuration string",C+"args.h: create_arguments")],
 ["key/value map"],["arguments"])
p("P04","Text data files load to exactly what they say",
 "Loading an ALTA text data file yields the declared DIM, PARAM_IN and PARAM_OUT and one sample per data line, in order, each number in the column the header assigns to it, for data with and without confidence-interval (#VS) columns; comments and blank lines change nothing. Intervals are those of the file's #VS columns or of the --dt, --dt-relative, --dt-max and --dt-positive options, and --data-correct-cosine divides values and intervals by the product of the light and view cosines (lines below the horizon are left out). The --min/--max, --ymin/--ymax filters keep exactly the lines inside them, and the data set's min() and max() bound exactly the coordinates of the kept samples. A file without usable DIM, or with a data line that lacks a number, is refused.",
 ["inputs","configurations"],"all small files over the header grammar (dimensions, parametrizations, VS flags, comment and blank-line placement) and all filter combinations",
 "The format has independent features (VS widths per output, optional PARAM lines, filters, symmetric/asymmetric intervals) whose combinations shift columns; tests load a handful of fixed files.",
 [C+"data_storage.cpp",C+"data_storage.h",C+"vertical_segment.cpp",C+"common.h"],[("header parser",C+"common.h, data_storage.cpp: arguments::parse_header"),("line loader",C+"data_storage.cpp: load_data_from_text"),("interval columns",C+"data_storage.cpp: read_confidence_interval")],
 ["parameters","sample matrix"],["load_data_from_text","vertical_segment","plugins_manager::load_data"])
p("P05","Saving a data set as text and loading it again gives the same data set",
 "A data set written as text and loaded again has the same parametrizations, the same number of samples in the same order and the same coordinates and values to the printed precision.",
 ["inputs","configurations"],"all dimension pairs, parametrizations and value shapes (zero, tiny, huge, negative, integral, repeating fractions) up to a bound on samples",
 "Round trips fail at particular widths, parametrizations or magnitudes; tests sample a few.",
 [C+"data_storage.cpp",C+"data.cpp"],[("text writer",C+"data_storage.cpp: save_data_as_text"),("text reader",C+"data_storage.cpp: load_data_from_text")],
 ["sample matrix"],["data::save","load_data_from_text"])
p("P06","Binary data files round-trip bit for bit and damage is never read as data",
 "A data set written in ALTA's binary format and loaded back, directly or through auto-detection by the data loader, is bit-identical to the original including its confidence intervals and parametrizations. A file cut at any byte, one whose payload lost or gained bytes, or one whose sizes, format, precision or byte order are missing, or contradict its content or whose version is not the one this reader knows, is never returned as a data set with samples in it.",
 ["inputs","crash_points","fault_sequences"],"all value bit patterns of an alphabet of awkward doubles, all small shapes, and every truncation length of the written file",
 "A crash or full disk can stop a write at any byte and the payload is arbitrary bytes; tests cannot cut at each offset or place each byte pattern at the header/payload border.",
 [C+"data_storage.cpp",C+"data_storage.h"],[("binary writer",C+"data_storage.cpp: save_data_as_binary"),("binary reader",C+"data_storage.cpp: load_data_from_binary"),("format detection",C+"data_storage.cpp / vertical_segment.cpp: load")],
 ["header fields","raw matrix"],["save_data_as_binary","load_data_from_binary","plugins_manager::load_data"])
p("P07","A vertical_segment behaves as an array of samples over any history",
 "Under any sequence of set, get and interval queries a vertical_segment answers as a plain array of samples: reading returns the last value written, a write to one sample or column changes no other, sizes and parameters never change, and a full row is coordinates, values, then interval columns. Confidence intervals given as symmetric widths or asymmetric bounds come back as lower and upper bounds around the value, and two data sets compare equal exactly when their sizes, parameters and samples agree to the tolerance.",
 ["histories","inputs"],"all operation sequences up to a bound over small shapes, for every interval kind",
 "Aliasing and offset mistakes appear only for particular interleavings of writes and reads or for particular dimension/interval shapes.",
 [C+"data.h",C+"data.cpp",C+"vertical_segment.h",C+"vertical_segment.cpp"],[("row layout",C+"vertical_segment.h: column_number, matrix_view"),("intervals",C+"vertical_segment.cpp: get(int, vec&, vec&, vec&)"),("equality",C+"data.cpp: data::equals")],
 ["sample matrix","interval columns"],["vertical_segment::get","vertical_segment::set","data::equals"])
p("P08","Measurement file readers put every stored sample in its own place",
 "MERL, UTIA, ASTM and BRDF-slice readers return, for every sample index of a file, exactly the value stored for it, scaled by the format's documented factors, at exactly the angular coordinates the format assigns to that index. What they write, they read back identically. Files whose stated dimensions, image size or number of samples is not what the format requires are refused.",
 ["inputs"],"every index of a synthetic file in which all stored values are distinct",
 "The index arithmetic maps millions of slots; only an exhaustive sweep shows that no two slots are exchanged.",
 [PL+"data_io"],[("MERL index",PL+"data_io/data_merl.cpp: theta_half_index, value"),("UTIA index",PL+"data_io/data_utia.cpp"),("ASTM columns",PL+"data_io/data_astm.cpp"),("slice pixels",PL+"data_io/data_brdf_slice.cpp")],
 ["sample array"],["data::get","data::value","plugins_manager::load_data"])
p("P09","Interpolated data reproduces the samples it was built from",
 "Data sets that interpolate (grid, RBF, MERL, UTIA, slice) evaluated at a stored sample return that sample's value, and between samples return the value their documented rule gives (multilinear for grid and UTIA, the weighted mean of the three nearest samples for RBF, the containing cell for MERL and slices). Coordinates on the boundary are answered from the stored samples next to them; coordinates outside the covered domain give a finite answer from the nearest stored samples or zero (UTIA continues its last elevation interval linearly to the horizon). MERL cells with a negative value in a channel, the mark of a missing measurement, read as zero. Nothing outside the data is ever read.",
 ["inputs","configurations"],"all small grids and point sets over a value alphabet, and all query points on a lattice containing every node, edge and midpoint",
 "Errors sit at particular cells, edges and wrap-around indices.",
 [PL+"data_interpolants",PL+"data_io"],[("grid lookup",PL+"data_interpolants/grid.cpp"),("RBF weights",PL+"data_interpolants/rbf.cpp"),("bilinear lookups",PL+"data_io/data_utia.cpp, data_brdf_slice.cpp")],
 ["sample array","neighbour search structure"],["data::value"])
p("P10","Rational functions evaluate to the quotient of their basis expansions",
 "For every basis (monomial, Legendre, Chebyshev, cosine), dimension and numerator/denominator size, value(x) is the quotient of the two linear combinations of the tensor-product basis functions of x mapped to the function's domain, per output channel. Distinct coefficient indices denote distinct multi-degrees enumerated by increasing total degree, and changing the sizes or copying coefficients changes only what it names.",
 ["inputs","configurations"],"all bases, dimensions up to a bound, all coefficient indices up to a bound and a lattice of evaluation points",
 "The index-to-multi-degree enumeration is recursive and dimension dependent; one wrong index leaves low degree fits looking right.",
 [C+"rational_function.cpp",C+"rational_function.h",PL+"rational_function_legendre",PL+"rational_function_chebychev",PL+"rational_function_cosine"],
 [("multi-degree enumeration",C+"rational_function.cpp: index2degree, populate, estimate_dk"),("basis evaluation","p(x,i), q(x,j) in each basis")],["coefficients","degree table"],["rational_function::value","rational_function_1d::p","rational_function_1d::q"])
p("P11","A function file saved and loaded again is the same function",
 "For every function plugin, and for compounds and products of them, saving with ALTA's format and loading with plugins_manager::load_function gives a function with the same dimensions, parametrizations, parameter values and values everywhere, to the printed precision, and --bootstrap with such a file starts from the function in it. A file whose content is missing, truncated or names another function is reported as a failure and never silently loads as something else.",
 ["inputs","crash_points","configurations"],"every function plugin and combination, all parameter vectors over an alphabet, and every line-wise truncation of the file",
 "Each plugin writes and reads its own record by hand; errors appear per plugin, per channel count, per position in a compound.",
 [C+"function.cpp",C+"function.h",PL],[("header and body writer","function::save, save_body, save_call"),("reader","plugins_manager::load_function, function::load")],["parameter vectors","header fields"],["function::save","plugins_manager::load_function"])
p("P12","Analytic reflectance models compute their documented formulas",
 "Each analytic function plugin (Beckmann, Blinn, Lafortune, Ward, ABC, SGD, spherical Gaussian, diffuse, Yoo and the retro variants, Schlick/normalised/retro Fresnel, Schlick/Smith/Walter masking) returns the value of its published formula for its current parameters, independently per colour channel. The value is finite and non-negative over the upper hemisphere for positive parameters, and zero below the horizon where the model says so.",
 ["inputs"],"all parameter vectors over an alphabet and all direction pairs of a grid, per model and channel count",
 "Tests check few models at few points, so a wrong exponent, constant or channel index in one model survives.",
 [PL],[("model values",PL+"nonlinear_*/function.cpp: value")],["model parameters"],["function::value"])
p("P13","Parameter Jacobians are the derivatives of the values",
 "For every nonlinear function, Fresnel and shadowing plugin and for compounds and products, parametersJacobian(x)[i*nbParameters+j] is the partial derivative of output i of value(x) with respect to parameter j, in the order of parameters().",
 ["inputs"],"every model, parameter vector over an alphabet, direction pair of a grid, channel and parameter index",
 "Fitters converge, slowly or to the wrong point, with a wrong Jacobian, so no exit code shows it.",
 [PL,C+"function.cpp"],[("analytic Jacobians",PL+"nonlinear_*/function.cpp: parametersJacobian"),("compound and product rule",C+"function.cpp: compound_function::parametersJacobian, product_function::parametersJacobian")],["model parameters"],["nonlinear_function::parametersJacobian"])
p("P14","Parameter vectors are read and written faithfully over any history",
 "For every nonlinear function, setParameters(p) followed by parameters() returns p, nbParameters() is its size, bounds vectors have that size, and no query (value, Jacobian, bounds) changes the parameters. After any sequence of setParameters, the last one wins and the function's values depend on it alone.",
 ["histories","inputs"],"all short histories of set/get/query operations per model, channel count and parameter alphabet",
 "A stale cache or a swapped slot shows only for particular orders of operations and multi-channel shapes.",
 [PL,C+"function.h",C+"function.cpp"],[("parameter packing",PL+"nonlinear_*/function.cpp: parameters, setParameters"),("concatenation",C+"function.cpp: compound_function, product_function")],["model parameters"],["nonlinear_function::parameters","nonlinear_function::setParameters"])
p("P15","Compounds add and products multiply their parts, each in its own coordinates",
 "A compound function evaluates to the sum, and a product function to the channel-wise product, of its parts, each part evaluated in its own input parametrization converted from the compound's. Their parameters, bounds and parameter counts are those of the parts in order, and parts marked fixed contribute their value but no parameters.",
 ["inputs","configurations"],"all lists of up to three parts over the plugin set, all fixed masks, all argument orders on the command line",
 "Offsets depend on the order, number and fixedness of the parts; tests use one or two lists.",
 [C+"function.h",C+"function.cpp",C+"plugins_manager.cpp"],[("sum",C+"function.cpp: compound_function::value"),("product",C+"function.cpp: product_function::value"),("command line composition",C+"plugins_manager.cpp: get_function")],["list of parts","fixed flags"],["plugins_manager::get_function","compound_function","product_function"])
p("P16","Plugins are found by the documented search order and failures are reported",
 "A plugin named by bare name is the one found in the first directory of ALTA_PLUGIN_PATH that holds a loadable file of that name, and a request that cannot be satisfied (no such plugin, wrong kind, unreadable file) yields a null pointer rather than another object or a crash.",
 ["configurations","fault_sequences"],"all assignments of {absent, valid, corrupt, wrong kind, unreadable} to a list of search directories",
 "The outcome depends on the combination of directory contents and on fallbacks.",
 [C+"plugins_manager.cpp",C+"plugins_manager.h"],[("search path",C+"plugins_manager.cpp: obtain_directories, open_library")],["search path"],["plugins_manager::get_data","plugins_manager::get_function","plugins_manager::get_fitter"])
p("P17","Error metrics and data distances equal their definitions",
 "The L1, L2, L-infinity, MSE, RMSE and mean statistics reported between a function or data set and reference data equal their textbook definitions over exactly the selected samples. They are zero exactly for identical values, symmetric, and insensitive to sample order and to samples that are masked out.",
 ["inputs","configurations"],"all small value matrices over an alphabet, all masks",
 "Normalisation and masking errors look plausible on any one example.",
 [C+"metrics.h",C+"metrics.cpp",C+"function.cpp","sources/softs/data2stats"],[("metrics",C+"metrics.cpp: errors::compute, norms"),("function distances",C+"function.cpp: L2_distance, Linf_distance"),("tool","sources/softs/data2stats/main.cpp")],["sample matrices","mask"],["errors::compute","function::L2_distance","data2stats"])
p("P18","The quadratic programming solver returns the constrained minimiser",
 "solve_quadprog returns the unique minimiser of the strictly convex objective subject to the given equality and inequality constraints, with the objective's value there, and returns infinity exactly when the constraints are infeasible, whichever scheduling of the inequalities is used; linearly dependent equality constraints are refused with an exception.",
 ["inputs"],"all small integer problems: dimension up to 3, constraints over a small integer alphabet, redundant and degenerate rows included",
 "Active-set methods go wrong only for particular sequences of constraint activations and drops.",
 ["external/quadprog++/QuadProg++.cc","external/quadprog++/QuadProg++.hh"],[("dual active-set method","QuadProg++.cc: solve_quadprog, add_constraint, delete_constraint")],["active set","factorisation"],["QuadProgPP::solve_quadprog"])
p("P19","Rational fitters only accept a fit that meets their guarantee",
 "A rational function accepted by the interval fitters (quadprog, parallel) lies inside the confidence interval of every data sample it was given, whatever the scheduling options, and its denominator keeps one sign on the samples that constrained the solution (all of them for quadprog). Whether a fit exists decides success: given data that some function of the requested size passes strictly inside, the fitter does not fail (and a search over sizes stops at the first size that admits a fit), and given data that none fits it does not report success. The parallel fitter keeps the closest of the solutions of that size, and gives data without intervals relative ones. The eigen fitter reproduces exactly representable data; the least-squares fitter reproduces positive data that are exactly polynomial (nq of one) or the reciprocal of a polynomial, and its numerator is the least-squares optimum for its denominator. Data or functions of an unsupported kind are refused.",
 ["inputs","configurations"],"all small data sets over a value alphabet, degrees and scheduling options",
 "Success is a claim about all samples; tests only look at the exit code.",
 [PL+"rational_fitters"],[("interval constraints",PL+"rational_fitters/quadprog.cpp, quadprog_parallel.cpp, rational_1d_fitter.h"),("constraint scheduling",PL+"rational_fitters/quadratic_program.h"),("least squares",PL+"rational_fitters/leastsquare.cpp, eigen.cpp")],["constraint set","coefficients"],["fitter::fit_data"])
p("P20","Multi-threaded work gives the single-threaded result under every schedule",
 "The parallel rational fitter and the parallel loop of data2data produce the same function or file for any number of threads and any interleaving of their iterations as with one thread, without races, deadlock or lost updates.",
 ["schedules"],"all distributions of loop iterations over up to three threads and all interleavings of their critical sections",
 "The outcome depends on which thread finishes first; a test sees one schedule.",
 [PL+"rational_fitters/quadprog_parallel.cpp","sources/softs/data2data/main.cpp"],[("dynamic loop and critical sections",PL+"rational_fitters/quadprog_parallel.cpp: fit_data"),("parallel conversion loop","sources/softs/data2data/main.cpp")],["best solution so far","counters"],["fitter::fit_data","data2data"])
p("P21","Nonlinear fitters improve on the start, stay in bounds and recover exact data",
 "Whenever a nonlinear fitter (eigen, ceres, nlopt) reports success, the parameters are finite, lie within the function's bounds, and give a squared error on the data (of log(1+y) with --log-fit, of cosine-weighted values with --fit-with-cosine) no larger than that of the parameters the function's bootstrap started from, whatever the data, their coordinates, the model, compound or product, and the optimizer options. On data generated by a function of the family started near it the gradient based fitters succeed and return that function's values; on slightly disturbed data, and on every problem that is linear in its parameters, they reach the least squares minimum (within the bounds, for nlopt). Parts fixed in a compound or product keep their values. Every fit ends, within the number of iterations or tolerances asked for, and one call's options do not leak into the next. What cannot be fitted (no data, another output dimension, starting parameters out of bounds, a function that is not nonlinear) is refused with false or an exception, never a crash or a read outside the data.",
 ["inputs","configurations"],"all combinations of fitter, optimizer option, model or pair of models, data coordinates, generating parameters and disturbance over small alphabets, all value vectors of linear problems over an alphabet, and all sequences of two or three calls over the options",
 "Convergence depends on sign conventions of residual and Jacobian and on parameter packing; exit codes do not show it.",
 [PL+"nonlinear_fitter_eigen",PL+"nonlinear_fitter_ceres",PL+"nonlinear_fitter_nlopt"],[("residuals and Jacobian",PL+"nonlinear_fitter_*/fitter.cpp")],["parameters"],["fitter::fit_data"])
p("P22","Command-line tools transform files as documented",
 "data2data, brdf2data, brdf2gnuplot, brdf2brdf, data2brdf and data2moments write exactly what their inputs and options determine. Every row data2data, brdf2data and brdf2gnuplot write is the conversion (or, for measurement formats and grids, the interpolation at the format's coordinates) of the input, or the function's value at the row's coordinates, in the parametrization announced in the output's header; row filters keep exactly the rows in their bounds, and rows below the hemisphere are left out unless --all-values is given. brdf2brdf writes the function it read, data2brdf the function its fitter finds with its distances to the data, data2moments the moments of the data. A tool that cannot do what was asked (missing option, unreadable input, unknown plugin or format, output that cannot be created) exits with a non-zero status and does not crash.",
 ["programs","inputs","configurations"],"all combinations of tool, option and small input file over the option alphabets",
 "Options interact (input and output parametrization, filters, sampling source); tests look at exit codes.",
 ["sources/softs"],[("conversion loop","sources/softs/data2data/main.cpp"),("sampling loop","sources/softs/brdf2data/main.cpp, brdf2brdf/main.cpp"),("plots","sources/softs/brdf2gnuplot/main.cpp")],["input file","output file"],["exit status","output files"])
p("P23","Output that could not be written or input that ends early is reported",
 "When writing a data or function file (ALTA text, ALTA binary, grid, interpolated, MERL, UTIA, EXR slice; ALTA functions and every export) fails at any point (the device fills up after any byte, one write is refused or cut short, the file cannot be created or closed) the saving call throws, and every tool exits with a non-zero status without crashing. A file that ends early in a way its format can reveal (fewer rows than a grid, a short row, a missing parameter, a short binary payload or image) makes the load fail and the tool that reads it exit with a non-zero status; a cut that leaves a well-formed shorter text file gives exactly the rows that are there, never invented ones: success is never reported for a file that is not complete.",
 ["fault_sequences","crash_points"],"a write-size limit at every byte of each kind of output, and a cut at every byte of each kind of input",
 "The failing point can be any byte; tests never run out of space.",
 [C+"data_storage.cpp",C+"function.cpp","sources/softs"],[("writers",C+"data_storage.cpp: save_data_as_text, save_data_as_binary; function.cpp: function::save"),("tools","sources/softs/*/main.cpp")],["output file"],["exit status","exceptions"])
p("P24","The Python module gives the same answers as the C++ library",
 "Objects made through the Python module (vec, arguments, data, function, fitter, and the get, load, save, value, set, convert, fit and distance calls) give the values, element for element, that the C++ calls they wrap give for the same inputs; a vector or sample handed out is an independent copy, while a second name for an object, or a compound or product made of functions, shares it; an object stays usable for as long as Python or another object refers to it, whatever is released first and until the interpreter exits. An index outside the object (negative or too large), a sample, point or parameter vector of the wrong size, None where an object is needed, a conversion between parametrizations of different dimension, and a file that cannot be loaded raise a Python exception (get_* and load_* calls may give None instead) and leave the object as it was: never a crash, an abort or a read or write outside the object.",
 ["histories","inputs"],"all short call sequences over the module's functions on small data sets",
 "The bindings copy and index by hand; object lifetimes depend on the order of releases.",
 ["sources/python/alta.cpp"],[("bindings","sources/python/alta.cpp")],["shared pointers"],["alta Python module"])
p("P25","Exported source code computes the same function",
 "The source code that exporting a function writes (function::save with --export, brdf2brdf, data2brdf) is valid and gives, at every pair of directions or every point, the value ALTA computes for the function, to the six significant digits that are printed. Shader and explorer exports (a GLSL function BRDF(L, V, N, X, Y)) exist for every analytic model but sgd (abc in COS_TH and retroblinn in COS_TK), alone or in any sum or product of them (the same model may appear several times), with one or three channels, and follow the frame they are given. C++ and matlab exports exist for rational functions of the monomial basis, of any dimensions, domain and degrees. Anything else (nonlinear functions as C++ or matlab, rational functions as shaders, the other rational bases, two channels in a shader, a function without coefficients, an unknown format) is refused with an exception instead of writing code that computes something else.",
 ["inputs","configurations"],"every exportable model, sum, product and rational function over alphabets of parameters, dimensions, degrees and domains, at all points of a grid",
 "The exported text is a second, hand-written implementation of each model.",
 [C+"function.cpp",C+"rational_function.cpp",PL],[("export writers","function::save_call, save_body in core and plugins")],["parameters"],["function::save with --export"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
