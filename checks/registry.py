"""What each check builds and explores.  Keys: src (explorers), targets (what /repo builds),
libs/cxx/env, py (Python explorers), level, rule, assumptions, limit/tlimit (seconds)."""
MC = "model_checking"
FUNCS = ["nonlinear_function_%s" % f for f in "abc beckmann blinn diffuse lafortune sgd spherical_gaussian ward retrobeckmann retroblinn retroyoo".split()] + ["nonlinear_fresnel_%s" % f for f in "schlick normalized_schlick retroschlick".split()] + ["nonlinear_shadowing_%s" % f for f in "schlick smith walter_smith".split()]
CHECKS = {
 "P01": dict(src=["p01_params.cpp"], level=MC,
   assumptions=["directions on a lattice that contains the poles, grazing, coincident, opposite and azimuth-wrap cases; other directions behave alike"]),
 "P02": dict(src=["p02_names.cpp"], level=MC, assumptions=["the list of supported parametrizations is the one params.h documents and implements conversions for"]),
 "P03": dict(src=["p03_args.cpp"], level=MC, assumptions=["token alphabet of keys, numbers, negative numbers, bracketed vectors, empty tokens and file names"]),
 "P04": dict(flags="-O1", src=["p04_text.cpp"], level=MC, assumptions=["numbers within single precision range, as the default filters require"]),
 "P05": dict(src=["p05_textrt.cpp"], level=MC, assumptions=["finite values within single precision range"]),
 "P06": dict(flags="-O1", src=["p06_binary.cpp"], level="fault_enumeration", rule="every cut position, every single lost or stray byte and 8-byte hole of the payload, and every header line removed or changed, over all small shapes, interval kinds and three payload fillings; plus all value bit patterns of an alphabet", assumptions=["host is little endian, as the sandbox is"]),
 "P07": dict(src=["p07_segment.cpp"], level=MC, assumptions=["up to 4 samples and 4 operations"]),
 "P10": dict(src=["p10_rational.cpp"], level=MC, targets=["core","rational_function_legendre","rational_function_chebychev","rational_function_cosine"], assumptions=["expansions of up to five terms with all values, up to 64 terms with fixed ones, and indices up to 130"]),
 "P11": dict(flags="-O1", src=["p11_funcfiles.cpp"], level=MC, targets=["core"]+FUNCS+["rational_function_legendre","rational_function_chebychev","rational_function_cosine"], assumptions=["values to ten printed digits; all lists of up to two (thorough three) parts, longer ones of a few kinds"]),
 "P12": dict(src=["p12_models.cpp"], level=MC, targets=["core"]+FUNCS, assumptions=["parameter alphabets of two or three values per parameter; directions on a lattice with normal, grazing, coincident and mirror pairs"]),
 "P13": dict(src=["p13_jacobians.cpp"], level=MC, targets=["core"]+FUNCS, assumptions=["extrapolated central differences of value() are the reference; parameters at which value() has a corner are left out"]),
 "P14": dict(src=["p14_params.cpp"], level=MC, targets=["core"]+FUNCS, assumptions=["three parameter vectors per model, histories of up to three (thorough five) operations on two instances; up to nine channels"]),
 "P15": dict(src=["p15_compound.cpp"], level=MC, targets=["core"]+FUNCS, assumptions=["all lists of up to two (thorough three) parts and trees of depth two, longer and deeper ones of a few kinds"]),
 "P16": dict(src=["p16_plugins.cpp"], level=MC, libs=["-Wl,--wrap=dlopen"], assumptions=["paths of up to three directories, histories of up to two (thorough three) requests; a half-written library whose ELF header is intact is left to the system loader"]),
 "P17": dict(src=["p17_metrics.cpp"], level=MC, targets=["core","data_rbf","brdf2stats","data2stats"]+FUNCS, assumptions=["up to three samples for all values, five for all orders and masks; tools print six digits; samples above the horizon"]),
 "P18": dict(src=["p18_quadprog.cpp"], level=MC, targets=["core","quadprog"], libs=["@B@/lib/libquadprog.a"], assumptions=["all integer problems of up to three unknowns and four (thorough five) inequalities over a small alphabet of rows; problems of up to 12 unknowns and 60 rows built around a known answer"]),
 "P19": dict(src=["p19_rational.cpp"], level=MC, targets=["core","quadprog","rational_fitter_quadprog","rational_fitter_parallel","rational_fitter_leastsquare","rational_fitter_eigen","rational_function_legendre","rational_function_chebychev"], assumptions=["up to four (thorough five) samples for all values, seventy for all positions of one odd sample; up to three coefficients on either side"]),
 "P20": dict(src=["p20_threads.cpp"], cxx=["-fsanitize=thread"], compile_only="-fsanitize=thread", objs=[("p20_runtime.cpp", []), ("p20_data2data.cpp", ["-fsanitize=thread"])], level=MC,
   targets=["core","quadprog","rational_fitter_parallel","rational_function_legendre","nonlinear_function_diffuse","data_rbf","data_merl","data_utia","data_brdf_slice"], libs=["@B@/lib/libquadprog.a","-Wl,--wrap=_ZN4alta15plugins_manager9load_dataERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES8_RKNS_9argumentsE,--wrap=_ZN4alta15plugins_manager8get_dataERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEmRKNS_10parametersERKNS_9argumentsE"],
   assumptions=["threads interact only through the operations the scheduler sees: OpenMP constructs, atomics and, for data-race-free programs (which is checked on every schedule), nothing else","at most three threads; preemptions in the fitter: three (two threads) or two (three threads), one more in the thorough tier; four in the conversion loop"]),
 "P08": dict(src=["p08_readers.cpp"], level=MC, targets=["core","data_merl","data_utia","data_brdf_slice","data_astm"],
   flags="-O1 -fsanitize=address", cxx=["-fsanitize=address"], env=dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=1:allocator_may_return_null=1"),
   assumptions=["the OpenEXR files are uncompressed single precision RGB images, as the formats prescribe"]),
 "P09": dict(src=["p09_interp.cpp"], level=MC, targets=["core","data_rbf","data_grid","data_merl","data_utia","data_brdf_slice"],
   flags="-O1 -fsanitize=address", cxx=["-fsanitize=address"], env=dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=1:allocator_may_return_null=1"),
   assumptions=["point sets of the RBF interpolant have distinct points"]),
 "P22": dict(src=["p22_tools.cpp"], level=MC,
   targets=["core","quadprog","data2data","brdf2data","brdf2brdf","brdf2gnuplot","brdf2stats","data2stats","data2moments","data2brdf","data_merl","data_utia","data_brdf_slice","data_astm","data_grid","data_rbf","rational_fitter_eigen","rational_fitter_leastsquare","rational_fitter_quadprog","rational_fitter_parallel","nonlinear_fitter_eigen","nonlinear_fitter_ceres","nonlinear_fitter_nlopt","rational_function_legendre","rational_function_chebychev","rational_function_cosine"]+FUNCS,
   assumptions=["coordinates are converted as params::convert does (P01), functions evaluate as function::value does (P10, P12, P15) and measurement formats read as P08 says: the tools are held to these"]),
 "P23": dict(src=["p23_faults.cpp"], level="fault_enumeration", rule="the device full after every number of bytes of every kind of file (large ones: both ends, section boundaries and a grid), every single failing, short or interrupted system call, every kind of path that cannot be written; every prefix of every readable format and function file",
   targets=["core","quadprog","data2data","brdf2data","brdf2brdf","brdf2gnuplot","brdf2stats","data2stats","data2moments","data2brdf","data_merl","data_utia","data_brdf_slice","data_astm","data_grid","data_rbf","rational_fitter_eigen","nonlinear_fitter_eigen","rational_function_legendre","rational_function_chebychev","rational_function_cosine"]+FUNCS, libs=["-ldl"],
   assumptions=["faults of the file being saved only; a cut that leaves a well-formed shorter file behind cannot be told from a complete one"]),
 "P21": dict(src=["p21_nonlinear.cpp"], level=MC, targets=["core","nonlinear_fitter_eigen","nonlinear_fitter_ceres","nonlinear_fitter_nlopt"]+FUNCS, assumptions=["30 samples per fit for the models, 4 for the linear problems; near means parameters within 8% of the bootstrapped ones; the two global optimizers and the derivative-free ones are only held to bounds, finiteness, the start and termination"]),
 "P24": dict(src=["p24_python.cpp"], level=MC, cxx=["-I/usr/include/python3.12","-fvisibility=hidden"],
   targets=["core","quadprog","alta","data_grid","data_rbf","data_merl","data_brdf_slice","rational_fitter_eigen","rational_fitter_leastsquare","rational_fitter_quadprog","rational_fitter_parallel","nonlinear_fitter_eigen","nonlinear_fitter_ceres","nonlinear_fitter_nlopt","rational_function_legendre","rational_function_chebychev","rational_function_cosine"]+FUNCS, libs=["-lpython3.12"],
   assumptions=["the C++ calls the module wraps are themselves right (the other properties); sequences of up to two or three statements; vectors of up to 4097 elements, data of up to 4097 rows, up to nine channels and eleven parts"]),
 "P25": dict(src=["p25_export.cpp"], level=MC, libs=["-ldl"], targets=["core","brdf2brdf","rational_function_legendre","rational_function_chebychev","rational_function_cosine"]+FUNCS,
   assumptions=["shaders are interpreted with double precision by a strict GLSL 1.20 subset interpreter and Matlab code by a calculator of its arithmetic (neither a GPU nor Matlab is present); C++ code is compiled with g++ and run; parameters with six significant digits, which is what the export prints"]),
}
NOT_APPLICABLE = {}
