#!/usr/bin/env python3
"""Write /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
COMMON = ("The 24 stable tests run the shipped examples once each and compare voxel counts, convergence flags, "
          "P_total and W_total with stored values; ")


def prop(pid, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": COMMON + why,
        "anchors": {
            "files": ["pypeec/" + f for f in files],
            "mechanism": [{"name": a, "where": "pypeec/" + b} for a, b in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("C01", "Index-array meshing reproduces the described voxels exactly",
     "Meshing a geometry given as voxel index arrays returns the given voxel counts, voxel size and centre and, for every "
     "domain, exactly the given voxels (voxel x+nx*y+nx*ny*z), and one reference-free voxel structure. "
     "An index array with an index outside the grid or repeated inside a domain, a non-positive voxel count or a non-positive voxel size is refused with an error.",
     ["inputs"], "all grids, domains and index arrays (valid and invalid)",
     "no test looks at which voxels a domain contains or feeds an invalid index.",
     ["lib_mesher/mesher_voxel.py", "run/mesher.py"],
     [("index checks and pass-through", "lib_mesher/mesher_voxel.py")], ["run_mesher_data"])

prop("C02", "PNG meshing maps every pixel of every layer to the right voxel",
     "Meshing a stack of PNG images puts voxel (x, y, z) in a domain exactly when the pixel of the image of layer z in column x and row "
     "(height-1-y) has one of the colours of this domain, every layer definition being repeated the given number of times from bottom to top (the images of one definition are merged). "
     "The grid is the image size times the number of layers with the given voxel size and centre; an image of the wrong size is refused with an error.",
     ["inputs"], "all images, colours, layer stacks, voxel sizes",
     "only the number of used voxels of six images is compared; orientation, layer order and colour matching are free.",
     ["lib_mesher/mesher_png.py"],
     [("colour matching, flip and layer indices", "lib_mesher/mesher_png.py")], ["run_mesher_data"])

prop("C03", "Shape meshing fills exactly the voxels whose centre is in the 2D shapes",
     "Meshing stacked 2D shapes (pads, traces, polygons with holes; the added shapes minus the subtracted ones, per layer) puts a voxel in a domain exactly when the centre of "
     "the voxel lies inside the resulting shape of its layer (points closer to the outline than a small tolerance excepted). "
     "The grid covers the given bounds (or the bounds of the shapes) with the whole number of voxels closest to the requested size, is centred on them, and stacks the layers from bottom to top with their number of voxels around the given height; the reference mesh extends over the shapes. Bounds without any voxel, repeated layer names and invalid polygons are refused with an error.",
     ["inputs"], "all shapes, operations, layer stacks, bounds, voxel sizes",
     "six shape examples fix only the number of used voxels with given parameters.",
     ["lib_mesher/mesher_shape.py"],
     [("shape construction, rasterisation and layer stacking", "lib_mesher/mesher_shape.py")], ["run_mesher_data"])

prop("C04", "STL meshing fills exactly the voxels with a corner inside the solids",
     "Meshing STL solids puts a voxel in a domain exactly when at least one of its eight corners lies inside one of the scaled and offset solids of this domain (corners closer to the surface than a small tolerance excepted). "
     "The grid covers the given bounds (or the bounds of all the solids) with the whole number of voxels closest to the requested size, is centred on them, and the returned reference mesh is the scaled and offset union of the solids.",
     ["inputs"], "all closed solids, scales, offsets, bounds, voxel sizes",
     "four STL examples fix only the number of used voxels.",
     ["lib_mesher/mesher_stl.py"],
     [("mesh transformation, bounds and voxelization", "lib_mesher/mesher_stl.py")], ["run_mesher_data"])

prop("C05", "Reducing and resampling never changes the described geometry in space",
     "Removing the unused border voxels and subdividing the voxels keep the region of space covered by every domain exactly the same: a domain covers after it the same boxes as before. "
     "Reduction yields the smallest grid that holds all the non-empty voxels, resampling splits every voxel by the given factors per axis (voxel size divided, counts multiplied), and both off leaves everything untouched.",
     ["inputs", "configurations"], "all voxel structures, resampling factors and option combinations",
     "only counts are compared, with the few factors of the examples.",
     ["lib_mesher/voxel_resampling.py"],
     [("reduction and resampling", "lib_mesher/voxel_resampling.py")], ["run_mesher_data"])

prop("C06", "Conflict resolution removes shared voxels as told and loses none",
     "After the conflict resolution every voxel that was in some domain is still in at least one domain that contained it, the rules are applied in order and each removes from its resolve domains exactly the voxels shared with "
     "its (other) keep domains. With random resolution every shared voxel ends in exactly one of the domains it belonged to, and without a conflict nothing changes; voxels that remain shared after the resolution or unknown domain names are refused with an error.",
     ["inputs", "schedules"], "all overlapping domains, rule lists and random outcomes",
     "two or three rule lists of the examples are run once.",
     ["lib_mesher/voxel_conflict.py"],
     [("rule and random resolution, duplicate check", "lib_mesher/voxel_conflict.py")], ["run_mesher_data"])

prop("C07", "Connected components and connection checks are exact",
     "The reported components partition the non-empty voxels into the groups that are connected through shared voxel faces. "
     "A connection check between groups of domains is accepted exactly when one component touches every non-empty group (connected) or no component touches two groups (insulated); an adjacency check is "
     "accepted exactly when one group shares a face with all the groups (connected) or no two groups share a face (insulated), and unknown domain names are refused.",
     ["inputs"], "all voxel structures, domain groups and check definitions",
     "the components are never compared, and no example violates a check.",
     ["lib_mesher/voxel_integrity.py"],
     [("voxel graph and domain checks", "lib_mesher/voxel_integrity.py")], ["run_mesher_data"])

prop("C08", "Evaluation points too close to the structure are caught, the others kept",
     "A field evaluation point is invalid exactly when its distance along every axis to the centre of some non-empty voxel (of the structure before resampling) is at most one voxel size. "
     "With the check on, invalid points are refused with an error when all points are required and dropped (with the order of the others kept) otherwise; with the check off every point is returned unchanged.",
     ["inputs", "configurations"], "all point clouds and voxel structures",
     "the clouds of the examples are far away from the structures.",
     ["lib_mesher/voxel_point.py"],
     [("point cloud filter", "lib_mesher/voxel_point.py")], ["run_mesher_data"])

prop("C09", "The voxel structure summary matches the voxel structure",
     "The mesher summary (total and used voxels, used ratio, volumes, voxel and surface sizes, numbers of domains, components and points) equals what is counted from the returned voxel structure itself.",
     ["inputs"], "all voxel structures",
     "only two of the counters are compared.",
     ["lib_mesher/voxel_summary.py"],
     [("summary", "lib_mesher/voxel_summary.py")], ["run_mesher_data"])

prop("C10", "Malformed input data is refused, well-formed data is accepted unchanged",
     "A geometry, problem, tolerance, viewer or plotter description in which a required entry is missing or an entry has the wrong type, an unknown keyword value or a value out of its documented range is refused with an error before any result is returned. "
     "A well-formed description is accepted, and the input data given by the caller are never modified.",
     ["inputs", "fault_sequences"], "all single-entry corruptions of all the input descriptions",
     "every test input is valid.",
     ["lib_check/check_data_format.py", "lib_check/check_data_options.py", "data/schema_problem.yaml", "data/schema_geometry.yaml", "data/schema_tolerance.yaml", "main.py"],
     [("schema validation", "lib_check/check_data_format.py"), ("plot options validation", "lib_check/check_data_options.py")],
     ["run_mesher_data", "run_solver_data", "run_viewer_data", "run_plotter_data"])

prop("C11", "At zero frequency the solution is the one of the voxel resistor network",
     "For zero frequency the potentials, current densities, loss densities, terminal voltages, currents and powers equal those of the resistor network in which adjacent conductive voxels are joined by the mean of their resistivities times "
     "length over area (per axis, complex and anisotropic values included) and each source voxel by its source with internal admittance or impedance.",
     ["inputs"], "all voxel structures, materials and sources with a unique solution",
     "no field, terminal value or anisotropic/distributed value is compared.",
     ["lib_solver/equation_system.py", "lib_solver/problem_value.py", "lib_solver/problem_geometry.py", "lib_solver/voxel_geometry.py", "lib_solver/extract_solution.py"],
     [("incidence matrix", "lib_solver/voxel_geometry.py"), ("resistances and source vectors", "lib_solver/problem_value.py"), ("equation system", "lib_solver/equation_system.py")],
     ["run_solver_data"])

prop("C12", "Electric problems agree with an independent dense PEEC model",
     "At any frequency a problem without magnetic material gives the potentials, current densities, terminal values, losses and magnetic energy of the partial-element model in which the faces between adjacent conductive voxels are coupled by "
     "the exact voxel-to-voxel partial inductances (mu0/(4 pi) times the double volume integral of 1/r over the squared face area).",
     ["inputs", "configurations"], "all voxel structures, materials, sources and frequencies",
     "only total loss and energy of nine example setups are compared with themselves.",
     ["lib_solver/system_matrix.py", "lib_solver/system_tensor.py", "lib_solver/equation_system.py", "lib_matrix/multiply_fft.py", "lib_matrix/green_function.py"],
     [("inductance operator", "lib_solver/system_matrix.py"), ("Green tensor", "lib_solver/system_tensor.py"), ("circulant multiplication", "lib_matrix/multiply_fft.py")],
     ["run_solver_data"])

prop("C13", "Magnetic problems agree with an independent dense PEEC model",
     "A problem with magnetic or electromagnetic material gives, at zero and non-zero frequency, the magnetic flux densities, charges and magnetic potentials and the electric quantities, losses and energies of the coupled partial-element model "
     "(susceptibility chi_re-j*chi_im as series reluctance, volume charge potentials, exact voxel-to-voxel coupling between currents and fluxes averaged onto the faces).",
     ["inputs", "configurations"], "all voxel structures with magnetic materials, sources and frequencies",
     "only total loss and energy of four magnetic setups are compared with themselves.",
     ["lib_solver/system_matrix.py", "lib_solver/system_tensor.py", "lib_solver/equation_system.py", "lib_matrix/multiply_fft.py", "lib_matrix/green_function.py"],
     [("potential and coupling operators", "lib_solver/system_matrix.py"), ("coupling tensor", "lib_solver/system_tensor.py")],
     ["run_solver_data"])

prop("C14", "Partial inductances between voxels are exact near and accurate far",
     "The self and mutual partial inductances between current elements, as seen at the terminals of two-voxel conductors, equal the double volume integral for every voxel aspect ratio and offset: they are symmetric, the same for opposite offsets, and vanish between perpendicular elements. "
     "Beyond the configured normalised distance the simplified value deviates from the exact one by no more than the order of the squared inverse distance, and within that distance the exact value is used.",
     ["inputs", "configurations"], "all voxel sizes, offsets, directions and distance thresholds",
     "the integrals are never looked at individually.",
     ["lib_matrix/green_function.py", "lib_solver/system_tensor.py"],
     [("analytic and simplified integrals", "lib_matrix/green_function.py"), ("distance threshold", "lib_solver/system_tensor.py")],
     ["run_solver_data"])

prop("C15", "Numerical options do not change the solution",
     "The solution fields, terminal values, losses, energies and point fields are, up to the solver tolerance, independent of the numerical options: direct or FFT multiplication, FFT library, worker and tensor splitting, iterative method, "
     "direct or segregated coupling with relaxation, factorization library, stopping rule, condition check and parallel settings.",
     ["configurations", "inputs"], "all option combinations available in the environment, on all problems",
     "every test uses the same options except two problem-specific ones.",
     ["lib_matrix/matrix_multiply.py", "lib_matrix/multiply_direct.py", "lib_matrix/multiply_fft.py", "lib_matrix/fourier_transform.py", "lib_matrix/matrix_factorization.py", "lib_matrix/matrix_iterative.py", "lib_solver/equation_solver.py"],
     [("multiplication back ends", "lib_matrix/matrix_multiply.py"), ("direct and segregated solvers", "lib_solver/equation_solver.py")],
     ["run_solver_data"])

prop("C16", "Power balance: source power equals losses and reactive power",
     "The total complex source power has the total losses as real part and, for a non-zero frequency and real resistivities, the angular frequency times twice the total magnetic energy as imaginary part. "
     "Passive materials never have negative electric or magnetic losses, in any domain or voxel, and the energy is positive whenever a current flows.",
     ["inputs", "configurations"], "all problems and frequencies",
     "loss and energy are compared with stored values only, never with the source power.",
     ["lib_solver/extract_solution.py", "lib_solver/equation_system.py"],
     [("losses, energy and source power", "lib_solver/extract_solution.py")], ["run_solver_data"])

prop("C17", "Charge is conserved: current enters and leaves only at the sources",
     "The divergence density of the current vanishes in every voxel that is not a source voxel, and in source voxels its total equals the source current; in every component the source currents add up to zero. "
     "The magnetic charges of every connected magnetic body add up to zero, and no current or flux crosses the outer surface of a body.",
     ["inputs", "configurations"], "all problems and frequencies",
     "the fields are not inspected.",
     ["lib_solver/voxel_geometry.py", "lib_solver/equation_system.py", "lib_solver/extract_solution.py", "lib_solver/problem_geometry.py"],
     [("incidence matrix", "lib_solver/voxel_geometry.py"), ("divergence density", "lib_solver/extract_solution.py")], ["run_solver_data"])

prop("C18", "The solution is linear in the sources and reciprocal between terminals",
     "Scaling all the source values by a complex factor scales all the fields and terminal values by it (powers by its squared modulus), and the response to a sum of excitations is the sum of the responses. "
     "The transfer admittance or impedance between two terminals is the same in both directions.",
     ["inputs"], "all problems, excitation pairs and complex factors",
     "each example has a single excitation.",
     ["lib_solver/equation_system.py", "lib_solver/problem_value.py", "lib_solver/equation_solver.py"],
     [("right-hand side and sources", "lib_solver/equation_system.py")], ["run_solver_data"])

prop("C19", "The solution follows the geometry under moves, padding and mirroring",
     "Translating the structure or surrounding it with empty voxels changes no result; permuting or mirroring the axes (with the data) permutes or mirrors the vector fields and point fields accordingly (the magnetic ones as axial vectors) and keeps potentials, terminal values, losses and energies. "
     "Scaling all the lengths with the matching resistivity and frequency scaling scales the solution as the equations demand.",
     ["inputs"], "all problems and symmetry operations",
     "each structure is solved in one pose.",
     ["lib_solver/voxel_geometry.py", "lib_solver/system_matrix.py", "lib_solver/system_tensor.py", "lib_solver/extract_solution.py", "lib_matrix/multiply_fft.py"],
     [("axis-dependent code of grid, matrices and fields", "lib_solver/system_matrix.py")], ["run_solver_data"])

prop("C20", "Names, order and splitting of domains and materials do not matter",
     "Renaming or reordering domains, materials, sources and sweeps, reordering the domain lists or the voxels in a domain, and splitting a domain or a material into several with the same values changes no voxel field, no terminal voltage, current or power of a source and no loss of a material. "
     "Values given per voxel follow their voxels.",
     ["inputs"], "all relabelings of all problems",
     "one labelling per example.",
     ["lib_solver/problem_geometry.py", "lib_solver/problem_value.py", "lib_solver/extract_solution.py"],
     [("index bookkeeping", "lib_solver/problem_geometry.py")], ["run_solver_data"])

prop("C21", "Equivalent ways to give a material or source value give the same solution",
     "A lumped material equals the distributed one with constant values, an isotropic material the anisotropic one with equal components, and a lumped source the distributed one that divides current and admittance by, or multiplies impedance with, the number of source voxels. "
     "An electromagnetic material equals an electric and a magnetic material defined on the same domain.",
     ["inputs"], "all problems and value notations",
     "each example uses one notation.",
     ["lib_solver/problem_value.py", "lib_solver/problem_geometry.py"],
     [("value casting", "lib_solver/problem_value.py")], ["run_solver_data"])

prop("C22", "Each sweep equals the separate solution of its parameters",
     "In a solver run with several sweeps every sweep result is the result of a separate run with only its parameters, whatever the order, the chain of initial guesses and the number of parallel jobs or threads, and exactly the requested sweeps are returned. "
     "A sweep whose initial guess is unknown or depends on itself is refused with an error.",
     ["inputs", "schedules", "configurations"], "all dependency trees, sweep orders and job counts",
     "sweeps without dependencies or with one chain run sequentially.",
     ["lib_solver/sweep_joblib.py", "run/solver.py"],
     [("dependency tree and parallel loop", "lib_solver/sweep_joblib.py")], ["run_solver_data"])

prop("C23", "Convergence flags and residuals tell the truth",
     "The overall status is true exactly when every sweep has converged, and a sweep has converged exactly when both the solver and the condition check succeeded; a sweep reported as converged (residual check on) has a true residual below the requested tolerance. "
     "The reported residual is the residual of the returned solution, and too few iterations, too strict residual limits or condition limits are reported as failures, not as success. "
     "The iterations end at the first one where the complex power has stopped changing as requested (over the given number of iterations, relative or absolute, not before the minimum number), never because of it earlier or later, and never exceed the given maximum. A diverging iteration and extreme but finite tolerances end with a reported failure or a true success, never with an unrelated error.",
     ["configurations", "inputs"], "all tolerance settings, iteration limits and problems",
     "all the examples converge.",
     ["lib_solver/equation_solver.py", "lib_matrix/matrix_condition.py", "lib_matrix/matrix_iterative.py", "run/solver.py"],
     [("status assembly", "lib_solver/equation_solver.py"), ("condition estimate", "lib_matrix/matrix_condition.py")], ["run_solver_data"])

prop("C24", "Ill-posed problems are refused instead of solved",
     "A problem that refers to unknown domains or misses the values of a material or source, places sources outside conductive material, has no conductor or no source, leaves a conductive component without source, or gives per-voxel values of the wrong length is refused with an error. "
     "The nearest well-posed problem is accepted.",
     ["inputs", "fault_sequences"], "all such defects injected in all problems",
     "all the examples are well-posed.",
     ["lib_solver/problem_geometry.py", "lib_solver/problem_value.py"],
     [("problem checks", "lib_solver/problem_geometry.py"), ("value checks", "lib_solver/problem_value.py")], ["run_solver_data"])

prop("C25", "Point fields are the field of the computed currents and charges",
     "The magnetic field at every evaluation point is the sum of the Biot-Savart field of the current elements (of the faces or of the voxels, as selected) and of the Coulomb field of the magnetic charges of the same solution, one row per point in the given order. "
     "It is independent of the other points.",
     ["inputs", "configurations"], "all solutions, points and field options",
     "the field values are not compared.",
     ["lib_solver/extract_solution.py"],
     [("point field evaluation", "lib_solver/extract_solution.py")], ["run_solver_data"])

prop("C26", "Terminal values obey the source laws and the computed potentials",
     "For every source the reported voltage is the mean potential of its voxels, the current the total current it injects and the power the sum over its voxels of voltage times conjugate current (halved for a non-zero frequency). "
     "In every source voxel the source law holds: current plus admittance times voltage, or voltage plus impedance times current, equals the given value, and an empty source reports zeros.",
     ["inputs"], "all sources, values and internal admittances and impedances",
     "terminal values are not compared.",
     ["lib_solver/extract_solution.py", "lib_solver/problem_geometry.py", "lib_solver/problem_value.py", "lib_solver/equation_system.py"],
     [("source extraction", "lib_solver/extract_solution.py"), ("source equations", "lib_solver/equation_system.py")], ["run_solver_data"])

prop("C27", "Aggregated quantities and indices are consistent with the fields",
     "The material losses add up to the total electric and magnetic losses and equal the loss densities summed over the voxels of the material; totals are the sums of the electric and magnetic parts; the total source power is the sum over the sources. "
     "The solution reports the voxel coordinates, voxel and face indices and problem counters that follow from the geometry.",
     ["inputs"], "all problems",
     "only two totals are compared.",
     ["lib_solver/extract_solution.py", "lib_solver/problem_geometry.py", "lib_solver/voxel_geometry.py", "run/solver.py"],
     [("integral and material quantities", "lib_solver/extract_solution.py"), ("counters", "lib_solver/problem_geometry.py")], ["run_solver_data"])

prop("C28", "Voxel index conversion is an exact bijection",
     "Converting voxel tensor indices to linear indices and back is the identity on every grid, the linear index is x+nx*y+nx*ny*z and unique in 0..nx*ny*nz-1, one result row per given index in the given order, and the arguments are left alone. "
     "An index outside the grid is refused with an error, and every index inside is accepted.",
     ["inputs"], "all grid sizes and indices",
     "the helpers are only run by one example generator.",
     ["utils/voxel.py"],
     [("conversion and bounds check", "utils/voxel.py")], ["pypeec.utils.voxel"])

prop("C29", "Fourier helpers are inverse to each other and leave their input alone",
     "For a sampled periodic signal the computed harmonics equal the Fourier coefficients (mean value and peak amplitudes), and the reconstruction from the harmonics returns the signal, for every frequency list inside the band. "
     "Neither direction modifies its arguments.",
     ["inputs"], "all signals, lengths and harmonic counts",
     "one example uses the helpers and is not checked numerically.",
     ["utils/fourier.py"],
     [("transforms", "utils/fourier.py")], ["pypeec.utils.fourier"])

prop("C30", "The impedance matrix is recovered from terminal solutions",
     "Given the terminal currents and voltages of enough independent excitations of an N-winding component (with and without symmetries) the extracted impedance, resistance, inductance, coupling and quality data are those of the component, and a too small or inconsistent set of excitations is refused. "
     "The result depends on neither the order nor the scaling of the excitations.",
     ["inputs"], "all symmetric impedance matrices, excitation sets and symmetries",
     "the helper is only used in one example that is not run by the tests.",
     ["utils/matrix.py"],
     [("matrix extraction", "utils/matrix.py")], ["pypeec.utils.matrix"])

prop("C31", "File-based runs equal in-memory runs, in every file format",
     "Running the mesher or the solver on files (JSON or YAML inputs; JSON, compressed JSON or pickle outputs) yields a result file whose content equals the in-memory result of the same data, up to the timing entries. "
     "The result file can be used as the input of the next step with the same results as without files.",
     ["inputs", "configurations"], "all geometries, problems and file formats",
     "the tests use in-memory data or a single format.",
     ["main.py", "run/mesher.py", "run/solver.py"],
     [("file wrappers", "main.py")], ["run_mesher_file", "run_solver_file"])

prop("C32", "A failing run reports the failure and leaves the outputs alone",
     "The command line returns zero exactly when the run succeeded, and equals the Python interface; any failure (missing or malformed input file, refused data, unknown command or option) makes the command line return a non-zero status and the Python interface raise an error. "
     "A failing run neither creates nor changes the output file.",
     ["inputs", "fault_sequences"], "all commands and injected failures",
     "the command line and the failure paths are not exercised.",
     ["main.py", "script.py"],
     [("command line and error handling", "script.py"), ("file wrappers", "main.py")], ["run_arguments", "run_mesher_file", "run_solver_file"])

prop("C33", "The viewer shows every voxel with its own domain and component",
     "In the viewer every non-empty voxel of the structure (and no other) is shown at its place in space, all the voxels of a domain share a value that differs from the other domains, and all the voxels of a connected component share a value that differs from the other components. "
     "The shown evaluation points are the given points, and the cut plane, camera, background, colours and opacities are the ones of the options.",
     ["inputs"], "all voxel structures and domain orders",
     "the viewer runs without looking at the data shown.",
     ["lib_plot/parse_viewer.py", "lib_plot/parse_voxel.py", "run/viewer.py", "lib_plot/manage_pyvista.py"],
     [("viewer data", "lib_plot/parse_viewer.py"), ("voxel grids", "lib_plot/parse_voxel.py")], ["run_viewer_data"])

prop("C34", "The plotter shows the solution values at the right places",
     "In the plotter each voxel or point carries the value computed by the solver for this voxel or point: the norm, the scalar at the given phase or the vector at the given phase, after scaling, clamping and filtering as requested; voxels without the variable are not shown. "
     "The material plot tells electric, magnetic, electromagnetic and source voxels apart exactly as defined in the problem; the convergence and residuum plots show the values of the solver, and the legends, colour scales and view options are the given ones.",
     ["inputs", "configurations"], "all solutions, variables and plot options",
     "the plotter runs without looking at the data shown.",
     ["lib_plot/parse_plotter.py", "lib_plot/manage_pyvista.py", "run/plotter.py", "lib_plot/parse_voxel.py"],
     [("plotter data", "lib_plot/parse_plotter.py"), ("plot transformations", "lib_plot/manage_pyvista.py")], ["run_plotter_data"])

prop("C35", "Exactly the selected plots and sweeps are produced",
     "With the save mode the viewer and the plotter write exactly one image per selected plot (and per selected sweep for the plotter), named by sweep and plot, in the given folder, and nothing when the selection is empty; without a selection all are produced. "
     "An unknown plot or sweep name is refused with an error.",
     ["inputs", "configurations"], "all selections of plots and sweeps",
     "the tests never save images and select everything.",
     ["run/viewer.py", "run/plotter.py", "lib_plot/manage_plotgui.py"],
     [("selection", "run/plotter.py"), ("image saving", "lib_plot/manage_plotgui.py")], ["run_viewer_data", "run_plotter_data"])

prop("C36", "Runs are repeatable and do not influence each other",
     "The same mesher or solver input gives the same result (up to the timing entries and documented random conflict resolution) whatever was run before in the same process: other geometries, problems, numerical options or failing runs leave no trace. "
     "Results already returned are not changed by later runs.",
     ["histories"], "all sequences of runs in one process",
     "each test runs one case per input once.",
     ["main.py", "run/solver.py", "lib_matrix/multiply_fft.py", "lib_matrix/fourier_transform.py", "lib_matrix/matrix_factorization.py"],
     [("module level option state", "lib_matrix/multiply_fft.py"), ("FFT option state", "lib_matrix/fourier_transform.py")], ["run_mesher_data", "run_solver_data"])

prop("C37", "The GERBER conversion renders every layer stack as described",
     "Converting GERBER files makes exactly one PNG image per layer stack, named after it, in the PNG folder and leaves no project or other file behind. "
     "Each image is rendered (gerbv) from the GERBER files of its stack in the given order with their colours, the board edge in its colour and the given background, "
     "with oversampling pixels per voxel size and the given margin, then trimmed and only then downsampled (mogrify) by the oversampling factor; the arguments are left alone.",
     ["inputs", "configurations"], "all layer stacks, colours, file and folder names and resolutions",
     "the conversion is not run by any test.",
     ["utils/gerber.py"],
     [("gerbv project and image commands", "utils/gerber.py")], ["get_convert"])

prop("C38", "All plot modes show the same selected plots, once and where they belong",
     "The window mode (default) opens one window per selected plot with the given title, size and menu, shows all of them before it enters the event loop once, ends with an error when the loop ends with an error code, and closes the windows on an interrupt. "
     "The notebook mode displays every selected plot exactly once with the notebook size and does not wait; the debug and save modes display nothing and close everything. The content of a plot is the same in all the modes.",
     ["inputs", "configurations", "fault_sequences"], "all plot descriptions, selections, modes and ends of the event loop",
     "the tests only use the debug mode, where nothing is displayed.",
     ["lib_plot/manage_plotgui.py", "run/viewer.py", "run/plotter.py"],
     [("windows and event loop", "lib_plot/manage_plotgui.py"), ("notebook display", "lib_plot/manage_plotgui.py")], ["run_viewer_data", "run_plotter_data"])

prop("C39", "The equations hold at every face and voxel of large structures",
     "For structures of hundreds to thousands of voxels (plates, bars, blocks with holes, several components), the returned solution satisfies at every face the voltage law (resistive, inductive and coupling voltages), at every voxel the current law and the law of its source, "
     "and in magnetic materials the potential and flux laws; the terminals, loss densities, losses, energies and point fields are the ones of these currents, fluxes and potentials.",
     ["inputs", "configurations"], "all structures, materials, sources and frequencies, at sizes where iterative solvers and convolutions matter",
     "tests compare a few integrals of small examples; a wrong element at a rare offset, direction or size stays unseen.",
     ["lib_solver/system_matrix.py", "lib_solver/system_tensor.py", "lib_solver/equation_solver.py", "lib_solver/equation_system.py", "lib_matrix/multiply_fft.py", "lib_matrix/matrix_condition.py", "lib_solver/extract_solution.py", "lib_solver/extract_convergence.py"],
     [("matrices and multiplications", "lib_solver/system_matrix.py"), ("condition estimate of large systems", "lib_matrix/matrix_condition.py")], ["run_solver_data"])

prop("C40", "Conductors obey the maximum principle and monotonicity of passive networks",
     "In direct current every potential lies between the ones of the terminals; the conductances between terminals are real and symmetric, with the sign of a passive network and no net current; lower resistivities never reduce the conductance. "
     "For fixed currents the losses never decrease and the inductive energy never increases with the frequency, and a very low frequency is the same as direct current.",
     ["inputs"], "all conductor shapes, materials, terminals and frequencies",
     "tests only compare with stored numbers.",
     ["lib_solver/problem_value.py", "lib_solver/equation_system.py", "lib_solver/extract_solution.py", "lib_solver/extract_convergence.py"],
     [("resistances", "lib_solver/system_matrix.py"), ("losses and energies", "lib_solver/extract_convergence.py")], ["run_solver_data"])

prop("C41", "The command line serves exactly the packaged examples and documentation",
     "Extracting the examples or the documentation writes exactly the files of the packaged archive (names, folders, content) below the given new or existing folder, replaces old versions, keeps the other files there, never changes the package, and can be repeated. "
     "A missing or damaged archive or an impossible target ends with a non-zero status and does not change other files. The version and the logo are the packaged ones, and the quiet option hides the logo.",
     ["inputs", "fault_sequences"], "all archives, targets and faults",
     "the tests do not run these commands.",
     ["script.py", "data/__init__.py", "__init__.py"],
     [("extraction", "script.py"), ("packaged data", "data")], ["run_script"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
