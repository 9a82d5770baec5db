NOT_APPLICABLE = []
NOTES = ("All checks are Python property-based tests (own engine in vlib/engine.py: seeded generators, oracle, shrinking, replay files) that build a "
         "scratch copy of /repo's working tree and drive the command line and the Python package. quick = default tier; --tier thorough multiplies the number of cases.")


def P(id, title, statement, over, text, why, files, mech, technique, level_note, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=a, technique=technique, level_note=level_note)


C = "pygrt/C_extension/src/"
REF = "agreement with an independently written reference on generated inputs; trusts vlib/refs.py, numpy and scipy"

PROPS = [
    P("C01", "First-arrival times obey Fermat's principle",
      "For every layered model (solid and liquid layers, arbitrary velocity order), source depth, receiver depth and set of distances, the reported P and S times are the smallest travel times over the direct ray and all critically refracted rays, and a wave that cannot exist (S through or in a liquid) is reported as absent. Exchanging source and receiver does not change the times.",
      ["inputs"], "all layered models, depth pairs inside the accepted domain, and distance lists",
      "the tests run one or two crustal models; which refraction wins depends on the order and thickness of all layers, the depths and the distance",
      [C + "common/travt.c", C + "tools/grt_travt.c"], [("travel time of the first arrival", C + "common/travt.c"), ("table output", C + "tools/grt_travt.c")],
      "PBT against a Fermat-minimisation reference", REF, ["stdout of grt travt"]),
    P("C02", "Frequency-wavenumber response solves the layered elastodynamic problem",
      "For every layered model with solid or liquid layers, attenuation, top and bottom boundary condition, source and receiver depth, frequency and phase velocity, the exported kernel functions (and their depth derivatives) of all six source types are the solution of the equations of motion in the layers with the continuity, boundary and source conditions.",
      ["inputs", "configurations"], "all models, depth pairs, boundary conditions, complex frequencies and wavenumbers that are numerically resolvable",
      "the tests compare C with Python on a few models, both using the same library; no independent solution and no variety of layers, liquids and boundaries",
      [C + "dynamic/layer.c", C + "dynamic/source.c", C + "integral/kernel_template.c_", C + "common/RT_matrix.c", C + "common/attenuation.c", C + "dynamic/grt_kernel.c"],
      [("reflection and transmission of layers", C + "dynamic/layer.c"), ("source terms", C + "dynamic/source.c"), ("assembly of the response", C + "integral/kernel_template.c_"), ("attenuation", C + "common/attenuation.c")],
      "PBT against a global-matrix reference solution", REF, ["kernel files of grt kernel"]),
    P("C03", "Static Green's functions solve the layered elastostatic problem",
      "For every layered solid model, boundary conditions and grid of source depths, receiver depths and horizontal positions, the static Green's functions and their vertical and radial derivatives equal the wavenumber sum of the independent elastostatic solution, with the documented signs and units and the medium parameters of the source and receiver stored next to them.",
      ["inputs", "configurations"], "all solid models, depth lists, distance lists or horizontal grids, boundary conditions, with and without derivatives",
      "the tests only run examples and compare C with Python; the values are never compared with an independent solution",
      [C + "static/static_layer.c", C + "static/static_source.c", C + "static/static_grn.c", C + "static/grt_static_greenfn.c", C + "integral/dwm.c", C + "integral/k_integ.c", C + "common/bessel.c"],
      [("static layer matrices", C + "static/static_layer.c"), ("static source terms", C + "static/static_source.c"), ("library of depths and distances", C + "static/stgrnlib.c"), ("wavenumber sum", C + "integral/dwm.c")],
      "PBT against a global-matrix reference solution", REF, ["NetCDF file of grt static greenfn"]),
    P("C04", "Dynamic Green's functions are the transform of the layered response",
      "For every layered model, depth pair, distances, sampling, imaginary frequency, frequency band, upsampling, start time and boundary conditions, each sample of every dynamic Green's function trace and of its vertical and radial derivatives equals the inverse transform of the independently computed wavenumber sum, with the documented signs and units. Exactly the requested components are written and the file headers (sampling, start time, distance, depths, medium parameters, first arrivals) describe them.",
      ["inputs", "configurations"], "all models, depth pairs, distances and options of the Green's function command within the numerically resolvable range",
      "the tests compare C with Python built on the same library for a handful of settings; combinations of delay, band, upsampling, attenuation, liquids and boundaries are not reached",
      [C + "dynamic/grn.c", C + "dynamic/grnspec.c", C + "dynamic/grt_greenfn.c", C + "integral/dwm.c", C + "common/myfftw.c", C + "common/sacio.c"],
      [("frequency loop", C + "dynamic/grn.c"), ("inverse transform and output", C + "dynamic/grnspec.c"), ("option handling", C + "dynamic/grt_greenfn.c")],
      "PBT against a global-matrix reference solution, sample by sample", REF, ["SAC files of grt greenfn"]),
    P("C07", "Strain, rotation and stress are the tensors of the synthesised displacement",
      "For every source, model, receiver and time sampling, strain and rotation are the symmetric and antisymmetric part of the displacement gradient in the chosen components (radial-transverse with its connection terms, or north-east), stress follows from strain by the isotropic law with the medium at the receiver (for seismograms with the frequency-dependent moduli of the attenuation law), the tensor symmetries hold, and the gradient is the derivative of the synthesised displacement field.",
      ["inputs", "configurations"], "all sources, azimuths, distances including zero, receivers in solid and liquid layers, trace lengths, component conventions, dynamic and static, lines, grids and point lists",
      "the tests compare the C and Python ports of the same formulas on one model and never differentiate the field",
      [C + "dynamic/grt_strain.c", C + "dynamic/grt_rotation.c", C + "dynamic/grt_stress.c", C + "static/grt_static_strain.c", C + "static/grt_static_rotation.c", C + "static/grt_static_stress.c", C + "common/attenuation.c"],
      [("tensors of seismograms", C + "dynamic/grt_stress.c"), ("tensors of static fields", C + "static/grt_static_stress.c")],
      "PBT against first-principles tensors and numerical differentiation", REF, ["SAC files of grt strain, rotation, stress", "NetCDF variables of grt static strain, rotation, stress"]),
    P("C08", "Synthetics are the documented linear combination for every source and azimuth",
      "For every source type (explosion, shear fault, tensile fault, moment tensor, force), orientation, scale, azimuth and distance (zero included), the synthesised displacement and its spatial derivatives are the moment tensor or force applied to the Green's functions of that receiver, in Z-R-T or Z-N-E components, in the documented units, for seismograms and static fields; headers describe source-receiver geometry, and at zero distance the field is the limit of its neighbours.",
      ["inputs", "configurations"], "all sources, angles, scales, azimuths and distances; arbitrary Green's function traces",
      "the tests run a few fixed angles and compare C with Python; identities for all angles and sources cannot be sampled by hand",
      [C + "dynamic/grt_syn.c", C + "static/grt_static_syn.c", C + "common/radiation.c", C + "common/coord.c", C + "static/recv_points.c"],
      [("radiation factors", C + "common/radiation.c"), ("synthesis of seismograms", C + "dynamic/grt_syn.c"), ("synthesis of static fields", C + "static/grt_static_syn.c"), ("rotation to north-east", C + "common/coord.c")],
      "PBT against rotated moment tensor algebra", REF, ["SAC files of grt syn", "NetCDF file of grt static syn"]),
    P("C09", "Source time functions, integration and differentiation of synthetics",
      "For every synthetic trace, time function (parabola, trapezoid, Ricker, user file; of any length, also longer than the trace), order of integration and of differentiation, the output is the convolution (periodic in the damped trace), trapezoidal integral and centred difference of the plain synthetic, applied in this order to all displacement and derivative components; the time function written next to it has unit amplitude, the documented shape and the requested duration rounded up to the sampling. The Python stream functions and signal generators do the same, in place or on a copy as requested.",
      ["inputs", "configurations"], "all traces, sampling intervals, damping values, time function types and durations, orders, both interfaces",
      "the tests run one short time function per type and compare C with Python; time functions longer than the trace, rounding of durations and combinations are not reached",
      [C + "dynamic/grt_syn.c", C + "dynamic/signals.c", "pygrt/utils.py", "pygrt/signals.py"],
      [("post-processing of traces", C + "dynamic/grt_syn.c"), ("time functions, convolution", C + "dynamic/signals.c"), ("stream functions", "pygrt/utils.py")],
      "PBT against a double precision reference of each operation", REF, ["SAC files of grt syn -D -I -J", "pygrt.utils.stream_*", "pygrt.signals.gen_*"]),
    P("C10", "Green's functions are selected exactly, from any library",
      "For every library directory (any set of depth pairs and distances, built by any sequence of runs), synthesis with -Ds, -Dr, -R uses exactly the one subdirectory whose depths and distance are the requested ones; a selector may be omitted only where the library has a single value; no match, several matches, a missing selector, or selectors next to a subdirectory are errors without output. A library belongs to one model: runs for another model are refused and leave it unchanged; repeated runs replace exactly their own entries.",
      ["histories", "inputs"], "all sets of library entries, histories of library runs, and selector combinations",
      "the tests use one small library with round numbers; what matters is every combination of present and missing values, single precision headers, and the history of the directory",
      [C + "dynamic/grt_syn.c", C + "common/util.c", C + "dynamic/grt_greenfn.c"],
      [("selection of the subdirectory", C + "dynamic/grt_syn.c"), ("ownership of the output directory", C + "common/util.c")],
      "model-based PBT over histories of library runs and queries", REF, ["exit status and output of grt syn", "directory written by grt greenfn"]),
    P("C11", "A library equals the individual runs, for any threads and any selection of outputs",
      "The Green's functions computed for lists of source depths, receiver depths and distances are those of the separate runs for each depth pair and for any subset of distances that keeps the largest; they do not depend on the number of threads, on which sources (-G) and derivatives (-e) are requested, nor on what was computed before in the same run. Exactly one result exists per depth pair and distance.",
      ["schedules", "inputs", "histories"], "all lists of depths and distances, numbers of threads, selections of outputs",
      "the tests run one or two lists and compare C with Python, which share the loops; state carried from one depth pair or frequency to the next shows only for particular lists (liquid source layers, interfaces, own wavenumber limits)",
      [C + "dynamic/grt_greenfn.c", C + "static/grt_static_greenfn.c", C + "dynamic/grn.c", C + "static/static_grn.c", C + "static/stgrnlib.c"],
      [("loop over depth pairs", C + "dynamic/grt_greenfn.c"), ("loop over depth pairs, static", C + "static/grt_static_greenfn.c"), ("parallel frequency loop", C + "dynamic/grn.c")],
      "metamorphic PBT: one library run against separate runs", REF, ["directory of grt greenfn", "NetCDF file of grt static greenfn"]),
    P("C12", "Static fields are combined from any library for any receivers",
      "For every static library (several source and receiver depths, even, uneven or gridded distances), point source and set of receivers (the library's own grid, a -X/-Y grid, or points of a file with their own depths), each component and derivative is the synthesis at the neighbouring library nodes combined with linear weights in distance and in both depths, with the medium of each source depth; receivers outside of the distances are zero, coordinates, depths, media and angles written to the file are those of the receivers, and missing or contradictory depth and receiver options are refused without output.",
      ["inputs", "configurations"], "all libraries in the documented layout, sources, receiver sets and combinations of options",
      "the tests use evenly spaced libraries and a few receivers; brackets, weights, duplicates of gridded distances and zero distance show errors only for particular receivers",
      [C + "static/grt_static_syn.c", C + "static/stgrnlib.c", C + "static/recv_points.c", C + "common/search.c", C + "common/model.c"],
      [("interpolation", C + "static/grt_static_syn.c"), ("library file", C + "static/stgrnlib.c"), ("receivers", C + "static/recv_points.c"), ("bracketing", C + "common/search.c")],
      "PBT against a reference interpolation of arbitrary libraries; model of the option rules", REF, ["NetCDF file of grt static syn"]),
    P("C13", "Finite faults are the sum of their tiles",
      "For every Coulomb fault file (all source kinds, rake format, any number of records, geometry, tile size or default), the static field and its derivatives are the sum over records and tiles of the documented point sources (mechanism from strike, dip and the two slip columns, potency from tile area, position and depth of the tile centre), in Z-N-E or Z-R-T, for grids and points and any number of threads.",
      ["inputs", "schedules"], "all fault files, tilings, libraries, receivers and thread counts",
      "the tests run one fault; tiles that do not divide the fault, dip directions, mixed kinds and the parallel sum are not sampled",
      [C + "common/finite_fault.c", C + "static/grt_static_syn.c"],
      [("records, tiles", C + "common/finite_fault.c"), ("sum over tiles", C + "static/grt_static_syn.c")],
      "PBT against a reference sum of tiles on arbitrary libraries", REF, ["NetCDF file of grt static syn -C"]),

    P("C14", "Okada fields are the elastic half-space solution",
      "For every homogeneous half-space, source (explosion, shear and tensile points, moment tensors; rectangles with the two slip columns of every Coulomb kind), receiver at the surface or at depth and component convention, grt okada (and pygrt.utils.compute_okada) returns the displacement and the displacement gradient of the exact half-space solution, also next to the prolongations of fault edges and for vertical and horizontal faults; a point source gives the same scale as static syn.",
      ["inputs", "configurations"], "all half-spaces, sources, fault files, receivers on grids and in point files",
      "the tests run a few faults and look at exit codes; the closed form has many branches (edges, prolongations, dip 90, image part at depth) that only particular geometries reach",
      [C + "okada/okada.c", C + "okada/grt_okada.c", C + "common/finite_fault.c", C + "static/recv_points.c"],
      [("closed form", C + "okada/okada.c"), ("sum over faults and receivers", C + "okada/grt_okada.c"), ("records", C + "common/finite_fault.c")],
      "PBT against Mindlin's tensor with quadrature and numerical differentiation", REF, ["NetCDF file of grt okada"]),
    P("C15", "The Lamb solution is the exact response of a half-space",
      "For every Poisson ratio, azimuth and time, the nine components returned by grt lamb1 and pygrt.utils.solve_lamb1 are the displacement at the free surface due to a step force at the surface: zero before the P arrival, finite and equal to the Cagniard-de Hoop integral everywhere else, whatever the other requested times are.",
      ["inputs"], "all Poisson ratios between 0.01 and 0.5, azimuths, lists of times, both interfaces",
      "the tests call it once; the closed form changes its expression with the nature of the Rayleigh roots, between arrivals and for different parameters of the elliptic integrals",
      [C + "lamb/lamb1.c", C + "lamb/grt_lamb1.c", C + "lamb/elliptic.c", C + "lamb/lamb_util.c"],
      [("closed form", C + "lamb/lamb1.c"), ("elliptic integrals", C + "lamb/elliptic.c")],
      "PBT against a deformed-path quadrature of the Cagniard-de Hoop integral", REF, ["output of grt lamb1", "pygrt.utils.solve_lamb1"]),
    P("C16", "Phase velocities are the surface wave modes, all of them and no others",
      "For every layered half-space (velocity inversions, liquids on top or buried), frequency or period list and limit on the number of modes, the phase velocities written by grt eigenv are, in ascending order and each once, the Rayleigh or Love modes below the S velocity of the half-space: none is missing and none is invented; they do not depend on the number of threads or on the other frequencies of the list. Modes indistinguishable from a layer velocity (1e-3), modes hidden at depth away from the searched interfaces and crack waves of thin buried liquids are outside of the guarantee.",
      ["inputs", "configurations", "schedules"], "all layered half-spaces, frequency lists, mode limits and thread counts inside the stated domain",
      "the tests run one model; whether a root bracket is lost depends on the order and thickness of all layers and on the frequency, and nothing counts the modes independently",
      [C + "modal/root.c", C + "modal/grt_eigenv.c", C + "modal/secular.c", C + "modal/modal_def.c", C + "modal/modal_util.c"],
      [("root search", C + "modal/root.c"), ("secular function", C + "modal/secular.c"), ("frequency loop and file", C + "modal/grt_eigenv.c")],
      "PBT against mode counting with dynamic stiffness matrices (Wittrick-Williams)", REF, ["NetCDF file of grt eigenv"]),
    P("C17", "Eigenfunctions, group velocities and sensitivities belong to their mode",
      "For every mode reported by eigenv, grt eigenfn gives displacements and stresses that solve the equations of motion at that frequency and phase velocity, continuous across interfaces (liquids included), up to one constant per mode; energy integrals are those of these functions and balance; the group velocity is d(omega)/dk of the mode; the phase velocity sensitivities are the derivatives of the phase velocity with respect to vp, vs and density of each (sub)layer, and the group sensitivities the documented combination. The -F and -N options select exactly the requested frequencies or periods and orders.",
      ["inputs", "configurations"], "all layered half-spaces in the domain of C16, modes, frequency and order selections, depth lists, slice thicknesses",
      "the tests run one model and look at the exit code; nothing perturbs a model or integrates an eigenfunction",
      [C + "modal/eigenfn.c", C + "modal/energy.c", C + "modal/grt_eigenfn.c", C + "modal/secular.c", C + "modal/modal_util.c", C + "modal/modal_def.c"],
      [("eigenfunctions", C + "modal/eigenfn.c"), ("energy integrals and sensitivities", C + "modal/energy.c"), ("selection", C + "modal/modal_def.c"), ("reference interface", C + "modal/secular.c")],
      "PBT against dynamic stiffness mode shapes, quadrature and perturbed models", REF, ["NetCDF files of grt eigenfn"]),
    P("C18", "Modal summation is the surface wave part of the Green's functions",
      "grt modsum writes, for every source, component, depth pair and distance, the inverse Fourier transform of the sum over the selected modes and frequencies of the residues of the wavenumber integrals of the same layered model, in the far-field form, with vertical and radial derivatives (-e) of the same sum; frequencies outside -F and modes outside -N do not contribute; files, lengths, origin times (-E, -Ep), media and travel times in the headers are those of grt greenfn for the same geometry.",
      ["inputs", "configurations"], "all layered half-spaces in the domain of C16 (liquids included), source and receiver depths, distances, frequency and mode selections, up-sampling, delays",
      "the tests run one model and look at the exit code; nothing relates modsum to the wavenumber integrals",
      [C + "modal/modgrn.c", C + "modal/grt_modsum.c", C + "modal/eigenfn.c", C + "modal/energy.c", C + "dynamic/grnspec.c"],
      [("spectra of one mode", C + "modal/modgrn.c"), ("driver, headers, delays", C + "modal/grt_modsum.c"), ("writing traces", C + "dynamic/grnspec.c")],
      "PBT against residues of independent wavenumber kernels by contour integration", REF, ["SAC files of grt modsum"]),
    P("C06", "One Earth model, however it is written",
      "Describing the same layered medium differently - layers split into parts of the same medium, depths of the layer tops instead of thicknesses, an extended half-space, any thickness of the last line, comments, blank lines, separators and number formats - changes no result: travel times, dynamic and static Green's functions with derivatives, media in headers, phase velocities and modal sums agree up to rounding. A depth on an interface belongs to the layer above in every description, and depths on faces of liquids are refused in every description.",
      ["inputs", "representations"], "all layered models and their equivalent descriptions, depths on and off interfaces, decimal thicknesses whose sums round",
      "the tests use a few model files with one description each",
      [C + "common/model.c", C + "common/util.c", C + "dynamic/grt_greenfn.c", C + "static/grt_static_greenfn.c", C + "tools/grt_travt.c", C + "modal/grt_modsum.c", C + "modal/grt_eigenv.c"],
      [("reading and splitting models", C + "common/model.c"), ("layer of a depth", C + "common/model.c"), ("layer of a depth in modsum", C + "modal/grt_modsum.c")],
      "PBT, metamorphic: equivalent model files", REF, ["travt tables", "SAC and NetCDF files"]),
    P("C22", "Number lists, ranges and limits of options",
      "A range a1/a2/d of an option stands for exactly the values a1 + i d that do not exceed a2, in decimal arithmetic (for frequencies and periods, a zero first value is left out); a list, a range and a file with the same values give the same outputs, in the same places; every value used appears in the output. A frequency band f1/f2 (greenfn -H, -F of modsum, eigenfn, disp2asc) is closed, in decimal arithmetic, and the results of two adjoining bands add up to those of the whole. The order of the options and of their parts has no influence. Values outside the documented domain of an option (negative or non-ascending distances and depths, zero or negative spacings, reversed ranges, angles, orders and weights out of bounds, exclusive, missing or unknown options, malformed model files) are refused: the command ends with code 1 and a message and writes no result.",
      ["inputs", "configurations"], "all commands with ranges and lists: travt, greenfn, static greenfn, static syn, okada, lamb1, kernel, eigenv, eigenfn, disp2asc, modsum, syn",
      "the tests use a handful of ranges whose steps are exact in binary and few wrong values",
      [C + "common/util.c", C + "common/model.c", C + "tools/grt_travt.c", C + "dynamic/grt_greenfn.c", C + "static/grt_static_greenfn.c", C + "static/grt_static_syn.c", C + "dynamic/grt_kernel.c", C + "modal/grt_eigenv.c", C + "modal/grt_eigenfn.c", C + "modal/grt_modsum.c", C + "lamb/grt_lamb1.c", C + "okada/grt_okada.c", C + "dynamic/grt_syn.c", C + "tools/grt_disp2asc.c"],
      [("lists, ranges, files", C + "common/util.c"), ("number of values of a range", "pygrt/C_extension/include/grt/common/const.h"), ("checks of options", C + "dynamic/grt_syn.c")],
      "PBT: sequences in exact decimal arithmetic; metamorphic list/range/file; generated values outside the domain", REF, ["coordinates and files in the outputs", "exit codes and messages"]),
    P("C21", "Commands stay inside their memory and end in an orderly way",
      "No command reads or writes outside the objects it owns, uses freed memory or null, overflows an integer or dies by a signal: neither for valid inputs in the domains of the other properties, nor for command lines and text files (models, lists, receiver and fault files) in which parts are missing, doubled, cut or replaced by other finite numbers and words. A command that cannot go on says so and ends with code 1.",
      ["inputs", "faults"], "all commands, with the inputs of all other checks and damaged variants of them",
      "the tests run without sanitizers on a few valid inputs, where most memory errors go unnoticed",
      [C + "grt.c", C + "common/model.c", C + "common/util.c", C + "common/finite_fault.c", C + "dynamic/grnspec.c", C + "dynamic/grt_syn.c", C + "static/grt_static_syn.c", C + "modal/root.c", C + "modal/eigenfn.c", C + "modal/modgrn.c", C + "integral/ptam.c", C + "integral/safim.c", C + "integral/dcm.c", C + "okada/grt_okada.c"],
      [("arrays of models and layers", C + "common/model.c"), ("reading text", C + "common/util.c"), ("spectra and traces", C + "dynamic/grnspec.c"), ("mode search", C + "modal/root.c")],
      "fuzzing of generated and damaged inputs under AddressSanitizer and UndefinedBehaviorSanitizer", REF, ["sanitizer reports", "signals", "exit codes"]),
    P("C05", "Every way of evaluating the wavenumber integral gives that integral",
      "The static and dynamic Green's functions and their derivatives are the wavenumber integral of the layered response for every method and setting: automatic upper limit, interval and convergence method, direct convergence (-Cd) and peak-trough averaging (-Cp) at equal depths, and the integral split at k* with a Filon part of fixed (+l) or adaptive (+a) interval, which equals the documented asymptotic-Bessel quadrature of the kernels over the rest of the range; a threshold (-K+e) ends the sum, for each distance by itself, at the first wavenumber at which every term is that small against its sum.",
      ["inputs", "configurations"], "greenfn and static greenfn: layered solids, depth pairs (equal depths included), distance lists, -L (length, +l, +a, +o), -K, -C",
      "the tests compare no two methods and no method with the integral; a wrong sign or coefficient of one part changes values by a few percent only for some components",
      [C + "integral/integ_process.c", C + "integral/dwm.c", C + "integral/fim.c", C + "integral/safim.c", C + "integral/dcm.c", C + "integral/ptam.c", C + "integral/kmax.c", C + "integral/k_integ.c", C + "dynamic/grn.c", C + "static/static_grn.c", C + "dynamic/grt_greenfn.c", C + "static/grt_static_greenfn.c"],
      [("choice of methods", C + "integral/integ_process.c"), ("Filon parts", C + "integral/fim.c"), ("direct convergence", C + "integral/dcm.c"), ("peaks and troughs", C + "integral/ptam.c"), ("upper limit", C + "integral/kmax.c")],
      "PBT against the integral itself (independent kernels, Gauss-Legendre panels, damping and Richardson extrapolation at equal depths) and against the closed-form Filon sum", REF, ["SAC and NetCDF Green's functions"]),
    P("C19", "The Python interface computes what the commands compute",
      "Every call of pygrt.PyModel1D (travel times, dynamic and static Green's functions, synthetics, static synthetics) and of pygrt.utils (okada, strain, rotation, stress) writes, and where asked returns, exactly what the documented command with the corresponding options writes: each argument means its option, zero is a value, omitted arguments mean the documented defaults. Arguments that exclude or require each other, or are out of range, raise an exception and leave no output.",
      ["inputs", "configurations"], "calls with any subset of the optional arguments, scalars, lists and arrays",
      "the tests compare option texts of some calls and a few results",
      ["pygrt/pymod.py", "pygrt/utils.py", "pygrt/cli.py", "pygrt/c_interfaces.py"],
      [("model class", "pygrt/pymod.py"), ("okada and tensors", "pygrt/utils.py"), ("command lines", "pygrt/cli.py")],
      "differential PBT: generated calls against the command line written from the documentation; byte equality of all outputs; table of refused calls", "the commands themselves are judged by the other checks.", ["written files", "returned streams, dictionaries and arrays", "exceptions"]),
    P("C20", "What is stored is what was computed, and conversions return it",
      "The integration records of greenfn and static greenfn (-S) hold, for the requested frequencies and every wavenumber of the integral in ascending order, the kernel functions of the model (with -e their vertical derivatives), and the recorded extremes of -Cp average to the result. sac2asc, ker2asc and disp2asc print every stored value of the selection (frequencies or periods, orders) under its name, in order and to the printed digits; pygrt.utils.read_statsfile, read_statsfile_ptam and read_kernels_freqs return the stored values (interpolated linearly to phase velocities where asked) and stream_write_sac writes the stream.",
      ["inputs"], "layered solids, record files of any length and content, dispersion files, selections",
      "the tests only check that the conversions run and compare one output",
      [C + "integral/iostats.c", C + "tools/grt_sac2asc.c", C + "tools/grt_ker2asc.c", C + "tools/grt_disp2asc.c", C + "modal/modal_def.c", C + "integral/dwm.c", C + "integral/ptam.c", C + "integral/integ_process.c", "pygrt/utils.py"],
      [("records", C + "integral/iostats.c"), ("selection of modes", C + "modal/modal_def.c"), ("readers", "pygrt/utils.py")],
      "PBT: round trips of generated files, records against the reference solution of the layered medium, selections against the whole file", REF, ["standard output", "record files", "returned arrays"]),
]
