#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

M = "pypeec/lib_mesher/"; S = "pypeec/lib_solver/"; X = "pypeec/lib_matrix/"; U = "pypeec/utils/"; L = "pypeec/lib_plot/"; R = "pypeec/run/"
TESTS = "The 24 stable tests run complete examples and compare six scalars at 1e-4; "

prop("C01", "Index-defined geometries are taken over exactly or rejected",
 "For a geometry given by voxel indices, the mesher accepts the description exactly when, in every domain, all indices are distinct and lie between zero (included) and the number of grid voxels (excluded); otherwise it raises an error and produces nothing. When accepted, the grid size, voxel size and grid centre are those given, and every domain holds exactly the given indices in the given order, with no domain added, lost or renamed.",
 ["inputs"], "all grid sizes, all sets of named index lists (empty, duplicated, negative and out-of-range ones included)",
 TESTS + "no rejected description is ever fed to the index mesher, and a swapped or dropped index that keeps the counts is invisible to them.",
 [M+"mesher_voxel.py", R+"mesher.py"], [("uniqueness and range guards, copy of each list", M+"mesher_voxel.py:get_mesh")], observe=["returned grid tuple and domain index lists"])

prop("C02", "Layered images are stacked into the exact voxel set of their colours",
 "For a geometry given as a stack of PNG layers, a voxel at column x, row y counted from the bottom of the image, and height z belongs to a domain exactly when z falls inside the run of layers of some stack entry and the pixel there, in at least one of the images of that entry, has one of the colours of the domain (all four channels equal). Stack entries occupy consecutive heights in the given order, each for its stated number of layers, the grid height is the sum of the layer counts, and within a layer run no voxel of a domain is listed twice. Unreadable images, images of another size and colours without four components are rejected with an error.",
 ["inputs"], "all image sizes and contents, all colour tables (shared colours included), all layer stacks and image lists",
 TESTS + "only six fixed image sets are read, compared by voxel count only, so mirrored, shifted or re-ordered layers go unseen.",
 [M+"mesher_png.py"], [("image orientation and colour match", M+"mesher_png.py:_get_load_image,_get_idx_image"), ("layer offset arithmetic", M+"mesher_png.py:_get_idx_voxel,_get_layer")], observe=["returned grid tuple and domain index lists"])

prop("C03", "Grid reduction and resampling preserve the described geometry",
 "Reducing a voxel structure crops the grid to the bounding box of all used voxels and moves the grid centre so that every used voxel keeps its physical position and size; resampling by integer factors replaces every voxel by exactly the factor-product child voxels that tile it, so each domain covers the same physical region, every child occurs once per parent occurrence, and the domain extent n times d is unchanged. With both switched off the structure is returned unchanged, with both on the resampling is applied to the reduced grid, and the reported physical size is always the voxel count times the voxel size per axis.",
 ["inputs", "configurations"], "all grid sizes, voxel sizes, centres, domain index lists, on/off combinations and positive integer factors per axis",
 TESTS + "reduction is used in few examples and only counts are compared; a permuted axis or off-by-half shift of the centre keeps every compared number.",
 [M+"voxel_resampling.py"], [("bounding box, centre shift and re-indexing", M+"voxel_resampling.py:_get_reduce,_get_reduce_indices"), ("child index arithmetic", M+"voxel_resampling.py:_get_idx_resample_tensor,_get_idx_linear")], observe=["n, d, c, s and domain index lists"])

prop("C04", "Shared voxels are resolved by the rules and never survive the mesher",
 "A mesh is only produced if no voxel belongs to two domains or twice to one domain; otherwise an error is raised. If rule-based resolution is on, the rules are applied in the given order and each rule removes from every domain to resolve exactly the voxels that the domains to keep hold, leaving all other domains and voxels untouched, and a rule naming an unknown domain is rejected. If random resolution is on, every voxel used before is afterwards held by exactly one domain that held it before, and with both off the domains are not modified.",
 ["inputs", "configurations"], "all families of overlapping domains, rule lists (repeated and chained rules), switch combinations and random outcomes",
 TESTS + "conflict rules are exercised on two fixed geometries and the random resolution never; duplicated voxels that the sum of counts hides go unseen.",
 [M+"voxel_conflict.py"], [("set difference per rule", M+"voxel_conflict.py:_get_solve_overlap"), ("random owner selection", M+"voxel_conflict.py:_get_random"), ("final uniqueness guard", M+"voxel_conflict.py:_get_resolution")], observe=["returned domain index lists, raised errors"])

prop("C05", "Connected components and integrity rules follow face adjacency",
 "The mesher groups the used voxels into components such that two used voxels are in the same component exactly when a chain of used voxels with shared faces links them; the components partition the used voxels. A required-connection rule passes exactly when some component contains a voxel of every non-empty group, a forbidden-connection rule passes exactly when no component touches two groups, a required-adjacency rule passes exactly when some group touches or overlaps all groups, and a forbidden-adjacency rule passes exactly when no two groups touch or overlap; any failing rule and any unknown domain raises an error.",
 ["inputs", "configurations"], "all grid sizes, domain families and group lists (empty groups and shared domains included), both rule kinds and polarities",
 TESTS + "all rules of the examples are satisfied, no rule is ever violated, and the component contents are not compared.",
 [M+"voxel_integrity.py"], [("face adjacency matrix", M+"voxel_integrity.py:_get_connection_matrix"), ("component labelling", M+"voxel_integrity.py:_get_connected_components"), ("rule evaluation", M+"voxel_integrity.py:_check_domain_connected,_check_domain_adjacent")], observe=["returned component list, raised errors"])

prop("C06", "Field points too close to the conductors are filtered, others kept",
 "With the cloud check on, a field evaluation point is kept exactly when for every used voxel it differs from the centre of that voxel by more than one voxel dimension along at least one axis; kept points keep their coordinates and order. If in addition a complete cloud is demanded, any dropped point raises an error instead; with the check off all points are returned unchanged.",
 ["inputs", "configurations"], "all grids, voxel sizes (anisotropic ones included), centres, domains and point lists, all switch combinations",
 TESTS + "the examples' clouds all lie outside of the voxels and the number of points is not compared.",
 [M+"voxel_point.py"], [("distance test per axis", M+"voxel_point.py:_get_point_valid"), ("voxel centres", M+"voxel_point.py:_get_voxel_coordinate"), ("filter and full-cloud guard", M+"voxel_point.py:get_point")], observe=["returned point array, raised errors"])

prop("C07", "Shape and STL grids fit the bounding box and hold well-formed domains",
 "For geometries given by shapes or STL files, the grid spans exactly the requested bounds (or, where no bound is given, the bounds of all objects; for shapes the height is the stack of layers around its given centre), the voxel count per axis is the extent divided by the requested voxel size rounded to the nearest integer, count times actual voxel size equals the extent, and the centre is the middle of the box; a box that would yield a non-positive voxel count or voxel size is rejected with an error. Every domain holds sorted distinct indices, and up to rounding at the boundaries a voxel of the grid belongs to a shape domain exactly when its centre is inside the union of the added shapes minus the removed shapes which the domain has in the layer of the voxel, and to an STL domain exactly when one of its corners is inside one of the closed surfaces of the domain.",
 ["inputs"], "all shape sets, layer stacks, bounds, voxel sizes and STL meshes, degenerate boxes included",
 TESTS + "ten fixed geometries are voxelized with regular boxes; degenerate boxes are never tried and the position of voxels is not compared.",
 [M+"mesher_shape.py", M+"mesher_stl.py"], [("grid sizing", M+"mesher_shape.py:_get_voxel_size"), ("grid sizing", M+"mesher_stl.py:_get_voxel_size"), ("layer bookkeeping", M+"mesher_shape.py:_get_layer_stack,_get_idx_voxel"), ("voxelization", M+"mesher_shape.py:_get_voxelize_shape"), ("voxelization", M+"mesher_stl.py:_get_voxelize_stl")], observe=["n, d, c and domain index lists, raised errors"])

prop("C08", "Voxel positions and face currents follow the grid topology",
 "Voxel number x + nx*y + nx*ny*z is centred at the grid centre plus (x+1/2-nx/2, y+1/2-ny/2, z+1/2-nz/2) times the voxel size. For any selection of voxels, the face set of the discretization is exactly the set of interfaces between two selected voxels adjacent along an axis, ordered by axis and voxel, and the incidence matrix has for each face +1 at the voxel of lower coordinate, -1 at the voxel of higher coordinate and nothing else, with rows in the order of the selection.",
 ["inputs"], "all grid sizes (single-voxel axes included) and all voxel selections in any order",
 TESTS + "the topology is only reached through the final losses and energies of fixed geometries.",
 [S+"voxel_geometry.py", S+"problem_geometry.py"], [("coordinates", S+"voxel_geometry.py:get_voxel_coordinate"), ("incidence matrix", S+"voxel_geometry.py:get_incidence_matrix"), ("restriction to the used voxels", S+"problem_geometry.py:get_reduce_matrix")], observe=["coordinate array, incidence matrix, face indices"])

prop("C09", "Materials and sources are mapped to their voxels, bad problems rejected",
 "Every material and source is assigned exactly the voxels of its listed domains in list order; electric indices collect the electric and electromagnetic materials, magnetic indices the magnetic and electromagnetic ones, current and voltage source indices the sources of each kind, in definition order, and the reported positions locate each material's and source's voxels inside these lists such that entry k of the voltage positions and entry k of the current positions of a source refer to the same voxel. The problem is rejected with an error if a domain is unknown, there is no electric voxel, no source, a source voxel is not electric, or a connected component with electric voxels has no source; otherwise it is accepted and magnetic physics is used exactly when a magnetic voxel exists.",
 ["inputs", "configurations"], "all families of domains, components, material and source definitions (multi-domain ones in any order, several materials and sources)",
 TESTS + "all example problems are valid and nearly all materials and sources own one domain, so order mix-ups and missing rejections are not reached.",
 [S+"problem_geometry.py"], [("index collection", S+"problem_geometry.py:get_material_idx,get_source_idx"), ("position lookup", S+"problem_geometry.py:get_material_pos,get_source_pos"), ("rejections", S+"problem_geometry.py:get_problem_type")], observe=["index and position arrays, raised errors"])

prop("C10", "Material data become the documented resistances of the faces",
 "Each voxel gets per axis the complex resistivity given for its material: the scalar for isotropic, the axis component for anisotropic, its own row for distributed data (rho_re + j rho_im on the electric side, 1/(mu0 (chi_re - j chi_im)) on the magnetic side), in the order of the voxel indices; data whose length or shape does not match the voxels are rejected. The resistance of a face along an axis is the mean of the axis resistivities of its two voxels times the voxel length along the axis divided by the voxel cross section.",
 ["inputs", "configurations"], "all material kinds, orientations, lumped and distributed data, grids, voxel sizes and voxel selections",
 TESTS + "most examples are isotropic with cubic-like voxels and real values; imaginary parts and anisotropic magnetic materials are hardly reached.",
 [S+"problem_value.py"], [("value expansion", S+"problem_value.py:_get_material_field"), ("resistivity vectors", S+"problem_value.py:get_material_vector"), ("face resistances", S+"problem_value.py:get_resistance_vector")], observe=["resistivity and resistance vectors, raised errors"])

prop("C11", "Source data become the documented source equations",
 "A lumped current source is shared equally by its voxels (current and admittance divided by the number of voxels) and a lumped voltage source drives every voxel with the given voltage through the given impedance times the number of voxels; distributed sources use the given values per voxel and data of wrong length are rejected. For every source voxel the assembled equations state I + Y V = I_given for current sources and V + Z I = V_given for voltage sources, the source current enters the current balance of that voxel only, and the excitation vector is zero elsewhere.",
 ["inputs", "configurations"], "all families of current and voltage sources, lumped and distributed, with any voxel order and any electric voxel order",
 TESTS + "most example sources are lumped and ideal, so internal admittances, distributed values and the position of each equation are not settled.",
 [S+"problem_value.py", S+"equation_system.py"], [("value expansion and sharing", S+"problem_value.py:_get_source_field,get_source_vector"), ("source matrices", S+"equation_system.py:get_source_matrix"), ("excitation vector", S+"equation_system.py:get_source_vector")], observe=["source vectors and matrices, raised errors"])

prop("C12", "Every multiplication mode applies the same block-Toeplitz interaction",
 "For a tensor of interaction values and voxel index lists in any order, multiplying with the prepared operator yields for each output index the sum over the input indices of the tensor value at the absolute coordinate difference times the input value: scalar for the potential, per direction for the inductance, and antisymmetric between different directions with the sign of the coordinate difference for the coupling. The direct, combined-FFT and split-FFT modes and all FFT libraries give this same result up to rounding, and the reversed coupling operator is the transpose of the forward one.",
 ["inputs", "configurations"], "all grid sizes, tensor values, index lists in any order (empty ones included), input vectors, multiplication modes",
 TESTS + "all of them use the split FFT mode of one library, so the direct and combined modes and index lists in other orders are never reached.",
 [X+"multiply_fft.py", X+"multiply_direct.py", X+"matrix_multiply.py", X+"fourier_transform.py"], [("circulant embedding", X+"multiply_fft.py:_get_tensor_circulant,_get_tensor_sign"), ("scatter, gather and slice products", X+"multiply_fft.py:_get_compute_split,_get_compute_combined,_get_indices"), ("dense matrices", X+"multiply_direct.py:_get_dense_diag,_get_prepare_sub")], observe=["operator results"])

prop("C13", "Interaction coefficients are the Green function integrals of the voxels",
 "The self and mutual coefficients between two voxels are the sixfold integral of 1/(4 pi distance) over both voxels, and the coupling coefficients of an axis pair are the corresponding normalized difference of face-to-voxel integrals along the third axis; voxel pairs farther away than the selected cell distance use the point approximation volume products/(4 pi distance) instead. The coefficients are stored per coordinate difference in grid order, are positive for self and mutual terms, and are invariant under a permutation of the axes.",
 ["inputs", "configurations"], "all voxel sizes, all coordinate differences, all approximation distances",
 TESTS + "the coefficients are only seen through the losses and energies at 1e-4 for one distance setting, so terms that vanish or are tiny for these voxel shapes are not settled.",
 [X+"green_function.py", S+"system_tensor.py"], [("closed-form antiderivatives and corner sums", X+"green_function.py:_get_green_6D_fct,_get_green_5D_fct,_get_green_preproc,get_green_ana"), ("far approximation", X+"green_function.py:get_green_num"), ("tensor assembly", S+"system_tensor.py:get_green_tensor,get_coupling_tensor,_get_coupling")], observe=["coefficient tensors"])

prop("C14", "Inductance, potential and coupling operators are scaled and reciprocal",
 "The inductance operator of two faces of equal direction is mu0 times the mutual coefficient of the voxels divided by the squared cross section, and zero between directions; the potential operator is the mutual coefficient divided by mu0 and the squared voxel volume; the diagonal values used elsewhere are these operators' self terms. The coupling operators average the interaction values between the voxels of the two faces and the magnetic-side operator is the exact transpose of the electric-side one; without faces of one kind all operators are zero.",
 ["inputs", "configurations"], "all grids, voxel sizes, electric and magnetic voxel selections, coefficient tensors and both multiplication modes",
 TESTS + "reciprocity and the scale per axis are never compared, only global sums for near-cubic voxels.",
 [S+"system_matrix.py"], [("scaling", S+"system_matrix.py:get_inductance_matrix,get_potential_matrix"), ("face to voxel averaging", S+"system_matrix.py:_get_face_voxel_matrix,get_coupling_matrix")], observe=["operator results"])

prop("C15", "The solved equations are the documented circuit equations",
 "For any unknown vector, the system and coupling operators return the residual side of the documented equations: on the electric side R I + s L I - A^T V plus the magnetic coupling s K I_m, the current balance A I minus the source currents, and the source equations; on the magnetic side R I - A^T V minus the transposed coupling of the electric currents, and V + P A I, with s = 2 pi j f. The preconditioner inverts exactly the same equations with the inductance and potential operators replaced by their diagonals and without coupling, for every frequency, whenever its reduced matrix is regular, and the unknowns are laid out in the order in which the solution is later split.",
 ["inputs", "configurations"], "all incidence matrices, resistances, operators, source matrices, frequencies (zero included) and unknown vectors",
 TESTS + "an inexact preconditioner or a wrong frequency factor of a weak coupling only changes iteration counts or digits beyond the compared ones.",
 [S+"equation_system.py", S+"equation_solver.py", X+"matrix_factorization.py"], [("block equations", S+"equation_system.py:_get_system_multiply_electric,_get_system_multiply_magnetic,_get_coupling_electric,_get_coupling_magnetic"), ("Schur complement preconditioner", S+"equation_system.py:_get_cond_fact_electric,_get_cond_fact_magnetic,_get_cond_solve"), ("combination of the sides", S+"equation_solver.py:_fct_sys_all,_fct_pcd_all"), ("layout", S+"equation_system.py:get_system_sol_idx")], observe=["operator results"])

prop("C16", "Convergence and condition are reported honestly and the solver terminates",
 "The solver reports success only if the residuum of the returned solution, evaluated with the full system, is below the larger of the absolute tolerance and the relative tolerance times the excitation norm (unless this check is switched off) and the iterative method or the power criterion reported convergence (unless this check is switched off), and it reports success whenever both hold; the reported residuum, threshold and iteration counts are those of the returned solution and run. The power criterion fires only after the minimum number of iterations and only if the last power differs from each of the preceding compared ones by at most the larger of the absolute and relative tolerance; the alternating method stops at convergence after the minimum, and never runs more than the maximum number of iterations; the condition check passes exactly when it is off or both condition numbers are below their limits, and an overall success requires all of them for every sweep.",
 ["inputs", "configurations", "histories"], "all systems, right-hand sides, solver methods, tolerance settings and iteration histories (non-convergent ones included)",
 TESTS + "they only see converged runs of one method; no failing, stagnating or early-stopped run is reached.",
 [S+"equation_solver.py", X+"matrix_condition.py", X+"matrix_iterative.py", R+"solver.py"], [("final status", S+"equation_solver.py:_get_status,get_solver"), ("power criterion", S+"equation_solver.py:_IterCounter.get_callback_run"), ("alternating loop", S+"equation_solver.py:_get_solver_segregated"), ("condition", S+"equation_solver.py:get_condition"), ("overall status", R+"solver.py:_get_data")], observe=["status flags, status dictionaries, call counts"])

prop("C17", "Sweeps run exactly once, in dependency order, with the right initial value",
 "For any set of sweeps where each names another sweep or nothing as its initial guess, either every sweep is computed exactly once, after the sweep it depends on and with exactly the solution of that sweep (or none) as the initial guess and its own parameters, and all results are returned under their own names; or, when the dependencies contain a cycle or name an unknown sweep, an error is raised before any sweep is computed. The results do not depend on the number of parallel jobs or on the order in which the sweeps are listed.",
 ["inputs", "configurations", "schedules"], "all dependency graphs (forests, cycles, self references, unknown names), parameter sets and job counts",
 TESTS + "only chains of up to a few sweeps without cycles are run, sequentially.",
 [S+"sweep_joblib.py"], [("dependency tree", S+"sweep_joblib.py:_get_tree_create,_get_tree_check"), ("recursive execution", S+"sweep_joblib.py:_get_tree_compute,_get_parallel_loop"), ("cycle guard", S+"sweep_joblib.py:get_run_sweep")], observe=["calls of the compute function, returned results, raised errors"])

prop("C18", "Reported losses, energies and terminal values balance",
 "The reported face and voxel losses, the losses per material and the integral losses agree: voxel loss density times voxel volume sums to the total, each material's loss is the sum over its voxels, and totals are electric plus magnetic parts with P = Re(R |I|^2)/2 (no 1/2 at zero frequency; magnetic faces use the flux rate s I), while energies are Re(conj(I) L I)/4 plus the coupling part (1/2 at zero frequency). Each terminal reports the mean voltage and total current of its voxels and the power sum of V conj(I) over matching voxels (factor 1/2 except at zero frequency), the total source power is the sum over terminals and equals the power tracked for convergence, and vector densities are the mean face fluxes per cross section, divergences the net outflow per volume.",
 ["inputs", "configurations"], "all solution vectors, geometries, frequencies (zero included), materials and sources, voxels in any order",
 TESTS + "two integrals are compared; per-material, per-terminal, per-voxel outputs and source power are not.",
 [S+"extract_solution.py", S+"extract_convergence.py"], [("losses and energies", S+"extract_solution.py:get_losses,get_energy,get_integral"), ("densities", S+"extract_solution.py:get_vector_density,get_scalar_density,get_divergence_density"), ("materials and terminals", S+"extract_solution.py:get_material,get_source"), ("tracked power", S+"extract_convergence.py:get_fct_conv")], observe=["result dictionaries and arrays"])

prop("C19", "Cloud fields are the Biot-Savart and magnetic charge sums",
 "At every field point the electric contribution is the sum over all sources of I dl x r / (4 pi |r|^3), with r from source to point, where the sources are either the face currents at the face centres or the voxel-averaged currents at the voxel centres, and the magnetic contribution is the sum over the magnetic voxels of q r' / (4 pi mu0 |r'|^3) with r' from point to source and q the net outflow of the voxel. Results are returned per point in the order of the points.",
 ["inputs", "configurations"], "all geometries, voxel sizes, current and flux vectors, point lists and both source placements",
 TESTS + "no field value is ever compared and the voxel placement is never run.",
 [S+"extract_solution.py"], [("kernel", S+"extract_solution.py:_get_biot_savart,_get_magnetic_charge"), ("source moments and positions", S+"extract_solution.py:get_magnetic_field_electric,get_magnetic_field_magnetic")], observe=["field array"])

prop("C20", "Entry points fail loudly, keep inputs intact and write only complete results",
 "Every run function and the command line either completes the whole workflow or reports the failure: any error during loading, checking, computing or saving reaches the caller as the same error (exit status 1 on the command line, 0 on success), and the result file is only written after a successful computation and holds exactly the data that the in-memory variant returns. Inputs passed in memory are never modified, repeated runs with the same input give the same result (apart from random conflict resolution, measured times and the randomised estimates of the condition numbers), and each command runs exactly its own tool with exactly the given arguments.",
 ["inputs", "fault_sequences", "histories"], "all commands and argument combinations, failures at each step of each workflow",
 TESTS + "every workflow succeeds; error paths, exit codes and input mutation are not checked.",
 ["pypeec/main.py", "pypeec/script.py", R+"mesher.py", R+"solver.py", R+"viewer.py", R+"plotter.py"], [("workflow wrappers", "pypeec/main.py"), ("command dispatch", "pypeec/script.py:run_arguments"), ("defensive copies", R+"mesher.py:run and "+R+"solver.py:run")], observe=["raised errors, files written, exit codes, input values"])

prop("C21", "Spectrum helpers are inverse to each other and leave their inputs alone",
 "The forward helper returns the single-sided amplitude spectrum of a real signal (mean in the first bin, doubled amplitudes elsewhere), padded with zeros or cut to the requested length, and the inverse helper turns a single-sided spectrum of a signal with the same number of samples back into that signal, for even signal lengths by default and for any signal length when the number of samples is given. Neither helper changes its argument, and the time and frequency helpers return equally spaced values from zero covering one period, respectively multiples of the base frequency.",
 ["inputs"], "all real signals of at least two samples, spectra, requested lengths and base frequencies",
 "The utility functions are not called by any of the tests.",
 [U+"fourier.py"], [("normalization", U+"fourier.py:get_fft,get_ifft"), ("axes", U+"fourier.py:get_time,get_freq")], observe=["returned arrays, argument arrays"])

prop("C22", "Extracted impedance matrices reproduce the terminal data",
 "From terminal voltages and currents generated by any symmetric impedance matrix, the extraction helper returns this matrix whenever the excitations determine it, with resistance as the real part, inductance as the imaginary part over the angular frequency, quality factor and the coupling factors derived from them, and it raises an error when shapes are wrong or the excitations are insufficient. Terminal data taken from a solution use voltage differences and the mean of the opposite currents between source and sink per winding and sweep, reject differing frequencies, and symmetry expansion appends the permuted solutions in order.",
 ["inputs"], "all numbers of windings and solutions, symmetric matrices, excitation sets, symmetries and frequencies",
 "The utility functions are not called by any of the tests.",
 [U+"matrix.py"], [("equation assembly and least squares", U+"matrix.py:_get_matrix_eqn,_get_matrix_solve"), ("derived quantities", U+"matrix.py:_get_matrix_parse,_get_matrix_coupling"), ("terminal extraction", U+"matrix.py:get_extract,get_symmetry")], observe=["returned dictionaries, raised errors"])

prop("C23", "Plots attach every value to its own voxel or point",
 "In the grids handed to the viewer and plotter, the cells are exactly the used voxels at their physical positions, and each cell carries the value of its own voxel whatever the order of the solution vectors: domain number, component number, material kind (sources taking precedence over materials), and real part, imaginary part and magnitude of every scalar and vector variable, with not-a-number where the variable is undefined; cloud points carry their own field values. Scaling, filtering, clamping and phasor evaluation act cell by cell on the selected variable, keeping exactly the cells inside the filter limits and bounding the values by the clamp limits.",
 ["inputs", "configurations"], "all grids, voxel selections in any order, component lists, variables, scale, filter, clamp and phase settings",
 TESTS + "plots are only produced without looking at their contents.",
 [L+"parse_viewer.py", L+"parse_plotter.py", L+"parse_voxel.py", L+"manage_pyvista.py"], [("sorting of values", L+"parse_plotter.py:set_voxel_scalar,set_voxel_vector,set_voxel_material"), ("sorting of tags", L+"parse_viewer.py:set_data"), ("grid", L+"parse_voxel.py:get_grid,get_voxel"), ("filters", L+"manage_pyvista.py:_get_norm,_get_phasor,_get_arrow")], observe=["cell and point arrays"])

prop("C24", "Only requested plots are shown and invalid requests are rejected",
 "The viewer and plotter show exactly the requested sweeps and plots (all of them without a request), in the requested order and each with its own settings; an unknown name, a malformed request, an unknown plot mode or an empty folder or file name is rejected with an error before anything is shown. Input data lacking a required field or holding a wrong type are rejected before any computation: integers are required where counts are expected and are not accepted where real numbers are expected, numbers below the documented minimum are rejected, and numeric arrays are accepted wherever lists are.",
 ["inputs", "configurations"], "all tag lists (empty, repeated and unknown tags), plot modes, folder and file names, and single-field corruptions of valid inputs",
 TESTS + "all requests are valid and select everything.",
 ["pypeec/lib_check/check_data_options.py", "pypeec/lib_check/check_data_format.py", R+"viewer.py", R+"plotter.py"], [("tag check", "pypeec/lib_check/check_data_options.py:check_tag_list,check_plot_options"), ("strict schema validation", "pypeec/lib_check/check_data_format.py"), ("selection", R+"viewer.py:run and "+R+"plotter.py:run")], observe=["plots opened, raised errors"])

prop("C25", "Voxel number conversions are inverse bijections",
 "The helper converting grid coordinates into voxel numbers accepts exactly the coordinates inside the grid on every axis and returns x + nx*y + nx*ny*z, and the helper converting voxel numbers into coordinates accepts exactly the numbers inside the grid; each undoes the other, in order and without loss. Anything outside the grid is rejected with an error.",
 ["inputs"], "all grid sizes (unequal axes included) and coordinate or index lists",
 "The utility functions are not called by any of the tests.",
 [U+"voxel.py"], [("range guards and index arithmetic", U+"voxel.py:get_idx_linear,get_idx_tensor")], observe=["returned arrays, raised errors"])

prop("C26", "Reported mesh and problem statistics match the data",
 "The statistics reported with a mesh and with a solution are those of the data returned with them: total and used voxels, faces and source counts, number of domains, components and points, the cross sections, total and used volumes and fill ratios computed from the final grid.",
 ["inputs"], "all grids, domain families, component and point lists, face and source sets",
 TESTS + "two of the seventeen reported numbers are compared.",
 [M+"voxel_summary.py", S+"problem_geometry.py"], [("mesh statistics", M+"voxel_summary.py:get_summary"), ("problem statistics", S+"problem_geometry.py:get_status")], observe=["status dictionaries"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))
import re
for p in P:
    if len(p["title"])>80: print("LONG", p["id"])
    print(p["id"], len(re.findall(r"[.!?](?:\s|$)", p["statement"])))
