"""
Source of properties.jsonl and MANIFEST.json (python tools/registry.py rewrites both).
"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTEG = "The 24 existing tests run fixed example workflows and compare eight scalars (voxel counts, frequency, convergence flag, total loss and energy) with a 1e-4 tolerance; "

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, built=True, **kw):
    P.append({
        "built": built, "check": kw,
        "prop": {
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": INTEG + why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": [observe],
            },
        },
    })


ML = "pypeec/lib_mesher/"
SL = "pypeec/lib_solver/"

prop("M01", "Index-defined geometries are meshed exactly as declared or refused",
     "For an index-array geometry, the mesher refuses the request if a domain lists an index twice or outside of the grid, and otherwise delivers every named domain with exactly the declared voxels (linear numbering, x fastest, then y, then z) in the declared grid (number, size and center). "
     "The delivered summary (voxel, domain, component and point counts, total and used volumes, cross-section areas, fill ratio) describes the delivered structure.",
     ["inputs"], "all grid sizes, voxel dimensions, domain names and index lists (unsorted, empty, duplicated or out of range)",
     "they contain one index-array geometry, which is valid, so neither the numbering on non-cubic grids nor the refusals are exercised for arbitrary inputs.",
     [ML + "mesher_voxel.py", ML + "voxel_summary.py", "pypeec/run/mesher.py"],
     [("index checks", "mesher_voxel.get_mesh"), ("summary", "voxel_summary.get_summary")],
     "data_geom returned by the mesher")

prop("M02", "Cropping and refining a voxel structure do not move any material",
     "With the reduction of unused voxels and/or the resampling switched on, each domain occupies exactly the same region of physical space as before; the reduced grid is the tight bounding box of the used voxels, and resampling splits each voxel by the requested integer factor along each axis (number, dimension, center and span stay consistent). "
     "Switched-off options change nothing.",
     ["inputs", "configurations"], "all occupied patterns, grid sizes, centers, factors (different per axis) and the four on/off combinations",
     "they check the total and used number of voxels only, so a structure which is shifted, mirrored or assigned to the wrong domain with the right number of voxels passes.",
     [ML + "voxel_resampling.py"],
     [("reduction", "voxel_resampling.get_resampling (reduce)"), ("refinement", "voxel_resampling.get_resampling (resample)")],
     "n, d, s, c and domain_def returned by the mesher")

prop("M03", "Voxels claimed by several domains are resolved as ruled, or refused",
     "The conflict rules are applied in order and remove from the resolved domain exactly the voxels currently shared with the kept domain, without any other change; the random resolution then assigns each voxel that is still shared to exactly one of its claimants and moves no other voxel. "
     "A structure is delivered only if its domains are pairwise disjoint; remaining overlaps and rules with unknown domain names are refused (rules are ignored when rule resolution is off).",
     ["inputs", "configurations"], "all overlap patterns, ordered rule lists with several kept/resolved domains, and outcomes of the random resolution",
     "the examples have one or two harmless overlaps and a fixed rule order; ordering effects, unresolved overlaps and the random mode are not covered.",
     [ML + "voxel_conflict.py"],
     [("rule resolution", "voxel_conflict.get_conflict"), ("random resolution", "voxel_conflict.get_conflict"), ("final uniqueness check", "voxel_conflict.get_conflict")],
     "domain_def returned by the mesher, or the refusal")

prop("M04", "The reported connected components partition the used voxels",
     "The components delivered with a voxel structure partition the used voxels of all domains: each used voxel is in exactly one component, two voxels sharing a face are in the same component, and two voxels of the same component are joined by a path of used voxels sharing faces (edges and corners do not connect, and the grid borders do not wrap around).",
     ["inputs"], "all occupied patterns on all grid sizes, including sparse, diagonal and snake-like patterns split over several domains",
     "the number of components is not compared at all and the example structures are simple bodies.",
     [ML + "voxel_integrity.py"],
     [("voxel connection matrix", "voxel_integrity.get_integrity"), ("component search", "voxel_integrity.get_integrity")],
     "graph_def returned by the mesher")

prop("M05", "Required and forbidden domain connections are enforced exactly",
     "A structure is refused if and only if a connection requirement fails: a required connection needs one connected component touching all the (non-empty) groups and a forbidden one needs that no component touches two groups; a required adjacency needs one group sharing a face with all the other groups and a forbidden one needs that no two groups share a face. "
     "Groups merge their domains, empty groups are ignored, and unknown domain names are refused.",
     ["inputs", "configurations"], "all structures and all lists of requirements (grouped domains, empty domains, unknown names)",
     "all the requirements of the examples are fulfilled, so that a check which accepts everything passes the tests.",
     [ML + "voxel_integrity.py"],
     [("connected requirement", "voxel_integrity.get_integrity"), ("adjacent requirement", "voxel_integrity.get_integrity")],
     "acceptance or refusal of the mesher")

prop("M06", "Field points inside or against the structure are dropped or refused",
     "When the point check is on, a field evaluation point lying within one voxel size (along every axis) of the center of a used voxel is removed, or makes the mesher refuse the request if full validity is required; all the other points are kept, in order and unchanged. "
     "When the check is off, all the points are kept unchanged.",
     ["inputs", "configurations"], "all point positions (including points on the limit), voxel patterns, anisotropic voxel sizes, and on/off combinations",
     "the examples use a few points that are far away from the structure.",
     [ML + "voxel_point.py"],
     [("point validity", "voxel_point.get_point")],
     "pts_cloud returned by the mesher, or the refusal")

prop("M07", "Stacked images become exactly the layers they depict",
     "For an image geometry, a voxel belongs to a domain if and only if one of the images of its layer shows one of the colors of the domain at that position (image columns along +x, image rows from top to bottom along -y), and the layers are stacked along +z in the given order with the given number of voxels. "
     "Images whose size differs from the declared one are refused.",
     ["inputs"], "all images, color maps (several colors per domain, shared colors, alpha), several images per layer, and layer stacks",
     "they compare only the number of voxels, which does not change when the images are flipped, transposed or stacked in another order.",
     [ML + "mesher_png.py"],
     [("color matching", "mesher_png.get_mesh"), ("layer stacking", "mesher_png.get_mesh")],
     "domain_def returned by the mesher")

prop("M08", "Stacked 2D shapes become the boolean composition of their parts",
     "For a shape geometry, the cross-section of a domain in a layer is the union of the shapes added to that layer without all the shapes subtracted from it (holes are excluded, buffers, pads and traces have round ends), a voxel belongs to the domain if its center is within that cross-section, and the layers are stacked along +z in the given order with the given number of voxels around the given center. "
     "Declared bounds are honoured (shapes outside are cut), missing bounds are taken from the shapes, and repeated layer names, ill-formed polygons and empty grids are refused.",
     ["inputs"], "all sequences of additions and subtractions of polygons (with holes), pads and traces on all layer stacks, with and without declared bounds",
     "they compare only the number of voxels of three shape examples.",
     [ML + "mesher_shape.py"],
     [("shape composition", "mesher_shape.get_mesh"), ("rasterization", "mesher_shape.get_mesh"), ("layer stacking", "mesher_shape.get_mesh")],
     "n, d, c and domain_def returned by the mesher")

prop("M09", "Solid bodies fill exactly the voxels they reach",
     "For an STL geometry, a voxel belongs to a domain if and only if one of its corners is enclosed by one of the (scaled, then shifted) bodies of that domain (corners on a surface may count or not), on a grid spanning the bounds with the number of voxels closest to the requested dimensions; bounds which are not declared are the ones of the bodies. "
     "Missing or unreadable files, bodies which are not closed, and empty grids are refused.",
     ["inputs"], "all arrangements of box-like and polyhedral bodies, scales, offsets, resolutions given by number or size, with and without bounds",
     "they compare only the number of voxels of two STL examples.",
     [ML + "mesher_stl.py"],
     [("grid bounds", "mesher_stl.get_mesh"), ("voxelization", "mesher_stl.get_mesh")],
     "n, d, c and domain_def returned by the mesher")

prop("S01", "Ill-posed problems are refused, well-posed problems are solved",
     "The solver refuses a problem if a material, source or parameter set names an unknown domain or lacks a defined material or source, if a per-voxel value list has the wrong length, if there is no electric voxel or no source voxel, if a source lies outside of the electric voxels, or if a connected component containing electric voxels has no source voxel. "
     "A problem without such a defect, whose materials (and whose sources) do not overlap and in which each electric component has a source fixing its potential (a voltage source or a current source with a finite admittance), is solved, and its reported numbers of voxels, faces and sources are those of the geometry.",
     ["inputs", "configurations"], "all assignments of materials and sources to the domains of arbitrary voxel structures",
     "only well-posed problems are tested.",
     [SL + "problem_geometry.py", SL + "problem_value.py", "pypeec/run/solver.py"],
     [("index checks", "problem_geometry.get_problem_type"), ("source per component check", "problem_geometry.get_problem_type"), ("value size checks", "problem_value.get_material_value / get_source_value")],
     "refusal, or data_init of the solution")

prop("S02", "Every sweep is solved once, after and from the sweep it depends on",
     "Each sweep of a problem is solved exactly once with its own parameters; a sweep which names another sweep as initial guess starts after that sweep is finished and receives its solution, the others start without initial guess. "
     "Dependencies that cannot be fulfilled (cycles, unknown names) are refused before anything is solved, and the set of results and their values do not depend on the number of parallel jobs or on the order in which the sweeps are declared.",
     ["schedules", "inputs", "configurations"], "all dependency graphs (forests of any shape, cycles, self-references, dangling names), declaration orders, and parallel or serial execution",
     "the examples contain two or three sweeps with a chain dependency and a serial execution.",
     [SL + "sweep_joblib.py", "pypeec/run/solver.py"],
     [("dependency tree", "sweep_joblib.get_run_sweep"), ("execution loop", "sweep_joblib.get_run_sweep")],
     "data_sweep of the solution, and the calls of the compute function")

prop("S03", "Convergence is reported exactly as the stop and tolerance criteria define",
     "The iteration stops on the power criterion exactly at the first iteration for which the minimum count and window are reached and all compared powers are within max(relative*|power|, absolute) of the last one; the segregated iteration stops at the first iteration fulfilling the residuum and minimum criteria (or after the maximum); a sweep is reported as converged if and only if its solver status, residuum and condition criteria (each unless ignored or disabled) hold, and the solution status is the conjunction over all the sweeps. "
     "The reported iteration count, power history, residuum and threshold are those of the delivered solution.",
     ["histories", "configurations", "inputs"], "all power histories, residuum sequences, iteration limits, tolerances, and ignore/check/stop flags",
     "they check that well-conditioned problems converge; a run that must be reported as failed is never tested.",
     [SL + "equation_solver.py", SL + "extract_convergence.py", "pypeec/lib_matrix/matrix_iterative.py", "pypeec/run/solver.py"],
     [("power stop criterion", "equation_solver.get_solver"), ("segregated loop", "equation_solver.get_solver"), ("status decision", "equation_solver.get_solver / get_condition"), ("aggregation", "solver.run")],
     "has_converged, solver_status, condition_status, conv, res and status of the solution")

prop("S04", "Solutions satisfy Kirchhoff's laws and the source equations",
     "In every converged solution, the net current leaving a voxel is the current injected there by the sources (zero in all other voxels), the potential difference between two touching electric voxels equals the resistive drop of the current through their common face for a static problem without coupling, and every source obeys its own equation: a current source with internal admittance delivers I-Y*V, a voltage source with internal impedance V-Z*I, lumped values being shared equally among the voxels of the source. "
     "Reported densities are the face flows averaged to the voxels and divided by the voxel cross-section or volume.",
     ["inputs", "configurations"], "all electric voxel structures, resistivities (isotropic, anisotropic, per voxel), voxel dimensions, and combinations of lumped and distributed current and voltage sources",
     "they compare the total loss and energy of a few examples; terminal voltages, currents, potentials and densities are not compared.",
     [SL + "equation_system.py", SL + "problem_value.py", SL + "extract_solution.py", SL + "voxel_geometry.py"],
     [("incidence matrix", "voxel_geometry.get_incidence_matrix"), ("source equations", "equation_system.get_source_matrix / get_source_vector"), ("resistance", "problem_value.get_resistance_vector"), ("densities", "extract_solution.get_vector_density / get_divergence_density")],
     "var, source of each sweep")

prop("S05", "Power and energy are balanced, and totals are the sums of their parts",
     "In every converged solution, the complex power delivered by the sources equals the losses (including the reactive part of complex resistivities) plus 2j*omega times the stored magnetic energy (time averages, half amplitudes for AC and full values for DC), the totals equal the sums over the sources, the materials and the voxel loss densities times the volume, and all electric and magnetic loss contributions are non-negative for passive materials. "
     "The powers logged during the iterations are computed like the delivered source power.",
     ["inputs", "configurations"], "all structures with electric, magnetic and electromagnetic materials, lossy or not, frequencies including zero, and source types",
     "they compare two totals with stored values for fixed examples.",
     [SL + "extract_solution.py", SL + "extract_convergence.py", SL + "system_matrix.py", SL + "equation_system.py"],
     [("losses and energy", "extract_solution.get_losses / get_energy"), ("source power", "extract_solution.get_source"), ("material losses", "extract_solution.get_material"), ("coupling operators", "system_matrix.get_coupling_matrix")],
     "integral, material, source, var and conv of each sweep")

prop("S06", "Material and source values act on the voxels they are given for",
     "A per-voxel list of material or source values assigns the k-th value to the k-th voxel of the concatenated domains of that material or source, a per-axis triple acts on the flows along its axis, and a lumped value acts on all the voxels: writing the same physical situation with lumped, per-voxel, isotropic or per-axis values, with split or reordered materials, domains, or sources, leads to the same solution. "
     "Imaginary parts enter with the documented sign.",
     ["inputs", "configurations"], "all ways to write a given assignment of values to voxels (value formats, domain orders, splitting and renaming)",
     "the examples use lumped isotropic values nearly everywhere and do not compare equivalent descriptions.",
     [SL + "problem_value.py", SL + "problem_geometry.py", SL + "equation_system.py", SL + "extract_solution.py"],
     [("value expansion", "problem_value.get_material_value / get_source_value"), ("vector assembly", "problem_value.get_material_vector / get_source_vector"), ("positions", "problem_geometry.get_material_pos / get_source_pos")],
     "source, material and var of each sweep")

prop("S07", "Numerical options do not change the delivered solution",
     "The multiplication method (FFT or direct), the tensor handling, the FFT library, the iterative solver, the coupling scheme, the initial guess and the number of parallel jobs only change the way to the solution: all delivered quantities agree within the requested tolerance.",
     ["configurations", "inputs"], "all combinations of the available numerical options on all problems",
     "every example is solved with a single set of options.",
     ["pypeec/lib_matrix/multiply_fft.py", "pypeec/lib_matrix/multiply_direct.py", "pypeec/lib_matrix/matrix_multiply.py", "pypeec/lib_matrix/fourier_transform.py", SL + "equation_solver.py", SL + "system_matrix.py"],
     [("FFT multiplication", "multiply_fft.get_multiply"), ("direct multiplication", "multiply_direct.get_multiply"), ("coupling schemes", "equation_solver.get_solver")],
     "all fields of each sweep")

prop("S08", "Solutions move with the structure under grid symmetries",
     "Translating the structure in its grid or in space, embedding it in a larger grid, mirroring an axis, permuting the axes, and renaming or reordering domains, materials, sources or sweeps transforms the solution accordingly: scalars (potentials, losses, energies, terminal quantities) are unchanged and vector fields are transformed like vectors (magnetic field like an axial vector).",
     ["inputs", "histories"], "all sequences of such transformations of all structures and materials",
     "each example is run in a single pose.",
     [SL + "system_tensor.py", "pypeec/lib_matrix/green_function.py", SL + "voxel_geometry.py", SL + "system_matrix.py", SL + "extract_solution.py"],
     [("Green tensor", "system_tensor.get_green_tensor"), ("coupling tensor", "system_tensor.get_coupling_tensor"), ("face numbering", "voxel_geometry.get_incidence_matrix")],
     "all fields of each sweep")

prop("S09", "A run depends on its inputs only and leaves them untouched",
     "The outcome of meshing, solving, viewing or plotting is determined by the data passed to it: it is the same whatever was run before in the same process (other problems, other options, failed runs), repeating a run reproduces it, the data passed by the caller are never modified, and results already returned do not change with later runs or later changes of the caller's data. (Meshing with random resolution of the conflicts is random by definition; the estimates of the condition numbers are randomized estimates.)",
     ["histories"], "all sequences of runs with different problems, options and failures in one process",
     "the tests run each workflow once, and compare nothing between runs.",
     ["pypeec/run/solver.py", "pypeec/run/mesher.py", "pypeec/lib_matrix/matrix_factorization.py", "pypeec/lib_matrix/fourier_transform.py", "pypeec/lib_matrix/multiply_fft.py", "pypeec/main.py"],
     [("option globals", "matrix_factorization / fourier_transform / multiply_fft set_options"), ("input copies", "run functions")],
     "returned data and the caller's input data")

prop("S10", "The field at the points follows from the delivered currents and charges",
     "At each field point, the delivered magnetic field is the Biot-Savart field of the delivered current distribution (lumped in the voxels, or in the faces) plus the field of the delivered magnetic charges, summed over all voxels, and the points keep their order. The grid, the points and the voxel positions delivered with the solution are those of the structure.",
     ["inputs", "configurations"], "all structures, solutions and point positions, both evaluation methods",
     "the field at the points is not compared at all.",
     [SL + "extract_solution.py"],
     [("Biot-Savart", "extract_solution.get_magnetic_field_electric"), ("magnetic charge", "extract_solution.get_magnetic_field_magnetic")],
     "H_p, J_c, Q_m and voxel positions of the solution")

prop("S11", "Inductances are those of uniform current in brick-shaped elements",
     "The partial inductance between two elementary currents depends only on their relative position and the voxel dimensions, is symmetric and zero for perpendicular directions, tends to mu0/(4*pi)*l1*l2/distance for large distances, scales linearly with the size, is the same when computed for bricks that are subdivided into smaller bricks, and does not depend on the threshold between the analytical and the approximate integration beyond the approximation error.",
     ["inputs", "configurations"], "all relative positions, voxel aspect ratios, and scales",
     "two total energies per example are compared.",
     ["pypeec/lib_matrix/green_function.py", SL + "system_tensor.py", SL + "system_matrix.py"],
     [("Green functions", "green_function"), ("tensor", "system_tensor.get_green_tensor / get_green_self")],
     "terminal quantities and stored energy of each sweep")

prop("S13", "Conductors and magnetic materials interact as the field equations require",
     "In every converged solution, the magnetic flux through the common face of two touching magnetic voxels is driven by the field of all the delivered currents and by the difference of the magnetic potential, through the reluctance of the two half voxels; the magnetic potential is the potential of the delivered magnetic charges; and the charges are the net flux leaving the voxels. "
     "The voltage induced in the conductors contains the back action of the magnetized voxels with the same coupling (reciprocity), at all frequencies including zero for the flux.",
     ["inputs", "configurations"], "all arrangements of electric, magnetic and electromagnetic voxels, susceptibilities (complex, anisotropic, per voxel) and frequencies",
     "they compare the loss and energy totals of a few fixed magnetic examples.",
     [SL + "system_tensor.py", SL + "system_matrix.py", SL + "equation_system.py", SL + "extract_solution.py", "pypeec/lib_matrix/green_function.py"],
     [("coupling tensor", "system_tensor.get_coupling_tensor"), ("coupling operators", "system_matrix.get_coupling_matrix"), ("potential operator", "system_matrix.get_potential_matrix")],
     "V_m, Q_m, B_m, J_c of each sweep")

prop("S12", "Solutions are linear in the excitation",
     "For fixed materials and frequency, the solution is linear in the source values: scaling all sources by a complex factor scales potentials, currents and fields by it and powers and energies by its squared magnitude, and the solution for a sum of excitations is the sum of the solutions.",
     ["inputs"], "all problems and complex excitation vectors",
     "each example has a single excitation per sweep.",
     [SL + "equation_system.py", SL + "equation_solver.py", SL + "extract_solution.py"],
     [("excitation vector", "equation_system.get_source_vector"), ("solver", "equation_solver.get_solver")],
     "var, source and integral of each sweep")

prop("W01", "File and command-line runs write results only on success and report failures",
     "Running a step with files gives the same result as running it with data: all input files are read first, the output file is written only after the step has succeeded (a step failing before its result is available, including a missing or unreadable input file or a destination folder that does not exist, leaves an existing output untouched and creates none), errors are raised to the caller, and the command line returns zero if and only if the step has succeeded. "
     "Results stored as JSON, compressed JSON or pickle give the same results when used by the next step.",
     ["fault_sequences", "histories", "inputs"], "all sequences of steps with missing, malformed or invalid input files, failing steps, pre-existing outputs, and unwritable destinations",
     "the tests run successful file workflows only.",
     ["pypeec/main.py", "pypeec/script.py"],
     [("file wrappers", "main.run_*_file"), ("command line", "script.run_arguments")],
     "files, exceptions, and return codes")

prop("W02", "Malformed inputs are refused before anything is computed",
     "An input that lacks a required field, has a field of the wrong type (a fractional number where a count is required, an integer or text where a real number is required), a value outside of its documented choices or range, or an array with the wrong length is refused by the step receiving it, before any computation, and well-formed inputs are never refused for their format. (The content of arrays of material and source values is checked together with the voxels.)",
     ["inputs"], "all single and combined deviations from the documented formats of the geometry, problem, tolerance, viewer and plotter inputs",
     "the tests only use well-formed inputs.",
     ["pypeec/lib_check/check_data_format.py", "pypeec/lib_check/check_data_options.py", "pypeec/data/schema_problem.yaml", "pypeec/data/schema_geometry.yaml", "pypeec/data/schema_tolerance.yaml"],
     [("schema validation", "check_data_format"), ("option checks", "check_data_options")],
     "acceptance or refusal of the steps")

prop("W03", "Exactly the requested plots are produced, for the requested sweeps",
     "The viewer and the plotter produce exactly the plots selected by the tags (all for none), each for exactly the selected sweeps, under distinct names in the requested folder with the requested prefix when saving; unknown tags, sweeps or modes are refused, and nothing stays open or is saved when plots are neither shown nor saved.",
     ["inputs", "configurations"], "all selections of plots and sweeps, names, and plot modes",
     "the tests run the plots in the debug mode without looking at what was produced.",
     ["pypeec/run/viewer.py", "pypeec/run/plotter.py", "pypeec/lib_plot/manage_plotgui.py", "pypeec/lib_check/check_data_options.py"],
     [("selection", "check_data_options"), ("plot manager", "manage_plotgui.PlotGui")],
     "created files and windows")

prop("W04", "Plotted fields show each voxel's own value at its own position",
     "The objects drawn by the plots show, for every used voxel, the value of that voxel of the structure or of the solution at its physical position (domain, component, material and source identification, scalar fields, vector fields, and point fields, after the requested phase, scaling, limits and thresholds), and nothing for the others; the geometry, the grid and the reference are shown at their place, and the convergence and the residuum figures show the stored history and residuum.",
     ["inputs"], "all structures, material and source assignments, and solution fields",
     "nothing of the plot content is compared.",
     ["pypeec/lib_plot/parse_voxel.py", "pypeec/lib_plot/parse_viewer.py", "pypeec/lib_plot/parse_plotter.py"],
     [("grid", "parse_voxel"), ("viewer data", "parse_viewer"), ("plotter data", "parse_plotter")],
     "objects given to the plots")

prop("W05", "Extracted impedance matrices reproduce the terminal behaviour",
     "The matrix extracted from the terminal voltages and currents of enough independent sweeps maps the currents of every sweep (and of any of their combinations) to the voltages, including windings that are coupled by a symmetry (winding permutations), and reproduces the matrix that generated the data; it is symmetric, is the least-square solution for inconsistent data, and the resistance, inductance, quality factor and coupling matrices follow from it; sweeps with different frequencies or whose currents do not determine the matrix are refused, and the inputs are not modified.",
     ["inputs"], "all numbers of windings, invertible excitations, matrices and winding symmetries",
     "the tests use the matrix tools in two examples without comparing the result.",
     ["pypeec/utils/matrix.py"],
     [("matrix extraction", "utils.matrix.get_extract / get_matrix"), ("symmetry", "utils.matrix.get_symmetry")],
     "return values of the matrix tools")

prop("W06", "Voxel index helpers convert faithfully or refuse",
     "The voxel index helpers convert between linear and tensor indices with the numbering of the mesher (x fastest), are inverse of each other on the whole grid, and refuse every index outside of the grid along any axis, also for non-cubic grids.",
     ["inputs"], "all grid sizes and index arrays",
     "the helpers are not tested.",
     ["pypeec/utils/voxel.py"],
     [("conversions", "utils.voxel")],
     "return values of the helpers")

prop("W07", "Fourier helpers are inverse transforms of peak-value series",
     "The Fourier helpers give the mean value and the peak-value harmonics of a sampled periodic signal (cut or filled with zeros to the requested length), evaluate a series at the sample times of one period (for fewer or more samples than harmonics), restore a signal from its complete series and a band-limited series from its samples, give matching time and frequency vectors, and do not modify their inputs.",
     ["inputs"], "all real signals and series, all lengths (odd and even), cut and filled",
     "the helpers are not tested.",
     ["pypeec/utils/fourier.py"],
     [("transforms", "utils.fourier")],
     "return values of the helpers")

prop("W08", "Board conversion draws every requested image from the given stack",
     "The conversion of circuit board artwork writes exactly one image per requested layer: the board edge is drawn over the files of the stack, the first file of a stack is drawn over the next ones, each file with the color which is given in the stack, the remaining positions with the background color; the image is rendered with the requested border and with the closest integer resolution to the oversampled voxel size, then trimmed and scaled back to one dot per voxel; names which are not defined are refused; the artwork files, the inputs, and the other images are not modified, no temporary files remain, for any (also special) characters in the folder and layer names.",
     ["inputs"], "all stacks (with repeated files and colors), artwork contents, sizes of voxels, oversampling factors, margins, names with spaces and special characters",
     "the conversion is not tested (the external programs are not installed).",
     ["pypeec/utils/gerber.py"],
     [("project file", "utils.gerber._get_gerbv_file"), ("commands", "utils.gerber._get_png_file")],
     "files written by the (stand-in) viewer and image tool")

LEVEL_NOTE = {
    "default": "TLC explores the specification exhaustively within the bounds of the listed models and judges every recorded run of the real code against it; assurance is bounded by the enumerated families and the seeded random inputs; trusts TLC, the JSON bridge and the recording harness.",
}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fid:
        for item in P:
            fid.write(json.dumps(item["prop"]) + "\n")
    checks = []
    na = []
    for item in P:
        pid = item["prop"]["id"]
        if item["built"]:
            checks.append({
                "property": pid,
                "quick_cmd": "bash run.sh %s quick" % pid,
                "thorough_cmd": "bash run.sh %s thorough" % pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": item["check"].get("technique", "TLA+ state machine checked with TLC; TLC-enumerated and random runs of the real code judged by a TLC trace specification"),
                "level": item["check"].get("level", "model_checking"),
                "level_note": item["check"].get("note", LEVEL_NOTE["default"]),
            })
        else:
            na.append({"property": pid, "reason": "the check is under construction (not claimed yet)"})
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks: the checks use the public entry points of the unmodified code", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fid:
        json.dump(manifest, fid, indent=1)
        fid.write("\n")


if __name__ == "__main__":
    main()
