"""Texts of the properties (single source of properties.jsonl and MANIFEST.json)."""


def P(id, title, statement, over, qtext, why, files, mech, technique, level, note, **kw):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, level=level, level_note=note, **kw)


SYM = "contract-based deductive verification: the real functions are executed on universally quantified symbolic inputs, each postcondition is a verification condition discharged by algebraic normal form / SMT"
GEN = "contract-based deductive verification of the generated C: regenerated on every run, symbolically executed, postconditions discharged by algebraic normal form / SMT"
RUN = "contract-based: pieces within the verifier's reach proved by symbolic execution of the generated C with postconditions discharged by algebraic normal form; whole-program postconditions evaluated on the compiled generated program (bounded)"
NOTES = "Every check runs the functions of /repo's working tree (nothing is copied or modelled); see DESIGN.md for the contracts, back ends and what is bounded."

PROPS = [
    P("C01", "Finite-difference stencils are exact to the requested order",
      "For every derivative operator the package offers (centred first, second and mixed derivatives, one-point and fully upwinded/downwinded first derivatives, Kreiss-Oliger dissipation, and arbitrary-offset first derivatives) and every even order, the returned points and coefficients lie on the operator's prescribed set of points and reproduce the derivative exactly on every polynomial through that order; the dissipation operator annihilates every polynomial of lower degree and is normalised to -1 on the highest grid frequency. The result does not depend on which stencils were requested before, and derivatives above second order are rejected.",
      ["inputs", "configurations", "histories"], "all smooth functions, grid spacings, directions, operators; orders enumerated",
      "tests print a few low-order stencils; other orders, fully upwinded operators and other request histories are never compared with the definition",
      ["nrpy/finite_difference.py", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py"],
      [("compute_fdcoeffs_fdstencl", "nrpy/finite_difference.py"), ("setup_FD_matrix__return_inverse(_lowlevel), Matrix_dict", "nrpy/finite_difference.py"), ("get_arb_offset_FD_coeffs_indices", "CurviBoundaryConditions.py")],
      SYM, "proof", "Each postcondition (coefficient map, moment conditions, support) is decided in exact rational arithmetic for all smooth functions; the order is enumerated up to a stated bound. Trusts SymPy rational arithmetic."),
    P("C02", "Finite-difference kernels compute the stencil on the right grid points",
      "C code generated for expressions containing derivatives of gridfunctions evaluates, at the current point, exactly those expressions with each derivative replaced by its finite-difference stencil applied to the named gridfunction's own memory at the right offsets and scaled by the inverse grid spacings; an upwinded derivative uses the upwinded stencil where the matching component of the control vector is positive and the downwinded one otherwise. This holds for every supported infrastructure, order, memory layout, SIMD setting, common-subexpression setting, helper-function setting and history of earlier requests, and nothing but the requested outputs is written.",
      ["inputs", "programs", "configurations", "histories"], "all values of all grid points, parameters and spacings; configurations and expression shapes enumerated",
      "tests compare printed text for one or two expressions per option, and other orders, infrastructures, option combinations and request histories are not executed at all",
      ["nrpy/finite_difference.py", "nrpy/c_codegen.py", "nrpy/grid.py"],
      [("gridfunction_management_and_FD_codegen", "nrpy/c_codegen.py"), ("read_gfs_from_memory, proto_FD_operators_to_sympy_expressions, FDFunction", "nrpy/finite_difference.py"), ("read_gf_from_memory_Ccode_onept", "nrpy/grid.py")],
      GEN, "proof", "For each enumerated configuration the generated kernel is proved equal to the specification for all real values of memory and parameters. Assumes real arithmetic for machine reals and injective index macros."),
    P("C03", "Generated scalar C code computes the requested expressions",
      "For any list of expressions and output names, the C code the package emits assigns to each output exactly the mathematical value of its expression, for all values of the inputs, whatever the options for common-subexpression elimination, its pre- and post-processing, declaration of temporaries, real type, automatic temporaries, and post-processing substitutions; every name used is declared before use, declared once, and no input is overwritten. Pre- and post-processing of subexpressions and expression-tree edits preserve the value of every expression.",
      ["inputs", "programs", "configurations"], "all real values of the inputs; expression shapes and option combinations enumerated",
      "the tests compare the emitted text for a handful of expressions; nothing evaluates the emitted code or other option combinations",
      ["nrpy/c_codegen.py", "nrpy/helpers/cse_preprocess_postprocess.py", "nrpy/helpers/expr_tree.py", "nrpy/helpers/custom_c_codegen_functions.py"],
      [("c_codegen, apply_substitution_dict, CCodeGen", "nrpy/c_codegen.py"), ("cse_preprocess, cse_postprocess", "nrpy/helpers/cse_preprocess_postprocess.py"), ("ExprTree", "nrpy/helpers/expr_tree.py")],
      GEN, "proof", "For each enumerated expression and option set the emitted code is proved equal to the expressions for all inputs; Piecewise under cse_preprocess is outside. Real arithmetic stands for machine reals."),
    P("C04", "SIMD code and intrinsics compute the same values as scalar code",
      "Converting an expression to SIMD intrinsics preserves its value for all inputs, for every operation the SIMD layer supports; every intrinsic in every instruction-set branch of the SIMD and CUDA headers (AVX-512, AVX, SSE2, with and without FMA, and the scalar fallback) computes, in each lane, the operation its name states; horizontal sums add every lane; generated SIMD kernels declare the constants they use with the exact values.",
      ["inputs", "programs", "configurations"], "all lane values; expression shapes enumerated; every preprocessor branch of the headers",
      "tests run on one machine with one instruction set and compare text; the branches not compiled there and most rewrite rules are never executed",
      ["nrpy/helpers/simd.py", "nrpy/helpers/simd_intrinsics.h", "nrpy/helpers/cuda_intrinsics.h", "nrpy/c_codegen.py"],
      [("expr_convert_to_simd_intrins", "nrpy/helpers/simd.py"), ("*SIMD macros and HorizAddSIMD, UPWIND_ALG, AbsSIMD", "nrpy/helpers/simd_intrinsics.h"), ("*CUDA macros", "nrpy/helpers/cuda_intrinsics.h")],
      GEN, "proof", "Lane-wise contracts of the vendor intrinsics are assumed; each macro body is proved against its contract in every branch, bit-precise for the bit-mask macros; a native compile-and-run of the branches this CPU has is bounded."),
    P("C05", "Generated loops visit exactly the intended grid points, once each",
      "A generated loop nest (plain, tiled, over all points or interior points or with a custom range, with any increment) executes its body for exactly the index tuples of its region, each exactly once, innermost index fastest, for all loop bounds and sizes; coordinates and precomputed reference-metric quantities are read at the loop's own point; index macros are injective and stay in the allocation; the ghost-zone count covers the widest stencil; one- and two-dimensional diagnostics select distinct interior points next to the requested axis or plane, on both sides of the origin.",
      ["inputs", "configurations"], "all loop bounds, increments and tile sizes; options and coordinate systems enumerated",
      "tests compare the text of a few loops; no test shows that tiles, offsets or macro arguments neither skip nor repeat a point for other sizes",
      ["nrpy/helpers/loop.py", "nrpy/infrastructures/BHaH/simple_loop.py", "nrpy/infrastructures/ETLegacy/simple_loop.py", "nrpy/infrastructures/CarpetX/simple_loop.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py"],
      [("loop", "nrpy/helpers/loop.py"), ("simple_loop, simple_loop_1D, simple_loop_2D", "nrpy/infrastructures/BHaH/simple_loop.py"), ("IDX3/IDX4/LOOP_* macros, NGHOSTS", "nrpy/infrastructures/BHaH/BHaH_defines_h.py")],
      GEN, "proof", "Soundness, coverage and uniqueness of each nest are SMT obligations over unbounded integers using the counting-loop rule; the diagnostic point selection is bounded (even grid sizes up to 24, different per dimension, 66 thorough)."),
    P("C06", "Gridfunction registry keeps names, indices, parities and groups consistent",
      "After any history of gridfunction registrations (scalars, vectors, rank-2 to rank-4 tensors in dimensions 2 to 4, for every infrastructure), every registered name appears exactly once with the group, rank, dimension, wavespeed, far-field value, parity and basis data of its own first registration; the generated index macros, counts and per-index arrays list, for each group, exactly the gridfunctions of that group, in one order used everywhere; memory-access strings address the gridfunction they name; the parity type of each component equals the parity of the product of its basis vectors; rejected registrations change nothing.",
      ["inputs", "histories", "configurations"], "all registration histories (by footprint); names, groups, ranks and dimensions enumerated",
      "tests register a few names in one order; wrong per-index data, or a component that depends on what was registered earlier, is never compared",
      ["nrpy/grid.py", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py", "nrpy/infrastructures/ETLegacy/Symmetry_registration.py", "nrpy/infrastructures/ETLegacy/interface_ccl.py", "nrpy/infrastructures/CarpetX/interface_ccl.py"],
      [("register_gridfunctions*, gridfunction_lists, gridfunction_defines, access_gf", "nrpy/grid.py"), ("BHaH_defines_set_gridfunction_defines_with_parity_types", "CurviBoundaryConditions.py"), ("construct_interface_ccl", "ETLegacy/CarpetX interface_ccl.py")],
      SYM, "other", "Per-operation contracts with footprint obligations; parity products are proved for all points by exact algebra; readers of the registry are checked on exhaustively enumerated short histories (bounded, most obligations)."),
    P("C07", "Parameters reach the generated code with their own name, type and default",
      "Every registered code parameter is a member of exactly one of the two generated parameter structs, with its own type and array size; the generated access headers (scalar and SIMD) declare a local variable of each requested parameter that equals that parameter for all values; the generated default-setting code stores each parameter's own default and nothing else, on every grid; Cactus parameter access and param.ccl name each used parameter of the thorn once with its own default; registration and look-up in the parameter registries depend on and change only the named entry, and invalid requests are rejected without effect.",
      ["inputs", "histories", "configurations"], "all parameter values; types, flags, sizes and registration histories enumerated",
      "tests register a few parameters and compare the printed text; types, sizes, flags and combinations not printed are never executed",
      ["nrpy/params.py", "nrpy/infrastructures/BHaH/CodeParameters.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py", "nrpy/infrastructures/ETLegacy/CodeParameters.py", "nrpy/infrastructures/CarpetX/CodeParameters.py", "nrpy/infrastructures/ETLegacy/param_ccl.py"],
      [("register_CodeParameter(s), register_param, parval_from_str, set_parval_from_str, add_to_glb_code_params_dict", "nrpy/params.py"), ("write_CodeParameters_h_files, register_CFunctions_params_commondata_struct_set_to_default", "nrpy/infrastructures/BHaH/CodeParameters.py"), ("read_CodeParameters", "ETLegacy/CarpetX CodeParameters.py")],
      GEN, "other", "Access headers are proved for all values by symbolic execution; structs, defaults and registry steps are exhaustive over the enumerated attribute combinations (bounded) with footprint obligations."),
    P("C09", "Declared tensors have their symmetries; matrix inverters return the inverse",
      "A tensor declared with any combination of symmetric and antisymmetric index groups has exactly those symmetries: each component is plus or minus the component of the smallest index tuple related to it, or zero where the symmetries force it; with symmetry axes set, exactly the components that are derivatives across an axis vanish; components of declared and zero tensors are distinct storage. The symmetric and generic inverters for 2x2, 3x3 and 4x4 matrices return the determinant and a matrix whose product with the argument is the identity for every invertible matrix, leave the argument unchanged and reject singular ones; the Levi-Civita symbol and tensors have the standard values.",
      ["inputs", "configurations"], "all matrix entries; dimensions, ranks, symmetry strings and axes enumerated",
      "doctests look at a few symmetry strings and never multiply the inverse with the matrix; other strings, ranks, dimensions and axes are not compared",
      ["nrpy/indexedexp.py"],
      [("declare_indexedexp, symmetrize_rank2/3/4", "nrpy/indexedexp.py"), ("zero_out_derivatives_across_symmetry_axes", "nrpy/indexedexp.py"), ("symm/generic_matrix_inverter2x2/3x3/4x4, LeviCivita*", "nrpy/indexedexp.py")],
      SYM, "proof", "Inverters are proved by polynomial normal form for all entries; symmetry contracts are exhaustive and exact over the enumerated ranks, dimensions and symmetry strings."),
    P("C10", "Reference-metric quantities are those of the coordinate map",
      "For every coordinate system, the reference metric, its inverse, determinant, scale factors, unit vectors, rescaling factors, Jacobians and their inverses, Christoffel symbols and all their stored derivatives are exactly those of flat space in the coordinates defined by xx_to_Cart; Cart_to_xx inverts xx_to_Cart on the whole domain; xxSph are the spherical coordinates of the same point; the box given by xxmin and xxmax ends at the requested physical size and hole radius; the precomputed form of every quantity, with the generated lookup tables as the generated code fills and reads them, equals the direct form; results do not depend on which systems were requested before, and unknown systems are rejected.",
      ["inputs", "configurations", "histories"], "all points of the domain and all parameter values; coordinate systems enumerated",
      "tests compare hashes of expressions with stored ones for 14 systems, so they show only that nothing changed; other even powers, the box, the tables and the inverse map are not compared with the definition",
      ["nrpy/reference_metric.py", "nrpy/infrastructures/BHaH/rfm_precompute.py"],
      [("ReferenceMetric, cartesian_like, spherical_like, spherical_wedge_like, prolate_spheroidal_like, cylindrical_like", "nrpy/reference_metric.py"), ("rfm_dict", "nrpy/reference_metric.py"), ("ReferenceMetricPrecompute", "nrpy/infrastructures/BHaH/rfm_precompute.py")],
      SYM, "proof", "About 99% of the obligations are proved for all points and parameters by normal form (Christoffel symbols against the flat-space definition); the left-inverse of the coordinate map is sampled (bounded)."),
    P("C11", "Basis transforms, boosts and rotations obey the tensor transformation law",
      "For every coordinate system and every tensor, transforming vectors, one-forms, rank-2 tensors and four-tensors between the Cartesian and the coordinate basis gives exactly the components required by the transformation law of the coordinate map, in both directions, without touching the argument; Lorentz boosts of vectors and of covariant tensors of rank 1 to 4 are the standard boost for every velocity (the Minkowski metric is preserved, an observer moving with the boost velocity is brought to rest, the inverse boost undoes it); rotations about any axis by any angle are the right-handed rotation of the vector or of both tensor indices, and arguments of other shapes are rejected.",
      ["inputs", "configurations"], "all tensor components, points, velocities, axes and angles; coordinate systems enumerated",
      "the basis transforms have no test at all, boosts are compared with a stored hash, rotations at a few right angles",
      ["nrpy/helpers/jacobians.py", "nrpy/equations/general_relativity/LorentzBoost.py", "nrpy/equations/quaternion_rotations/tensor_rotation.py"],
      [("basis_transform_*", "nrpy/helpers/jacobians.py"), ("LorentzBoost", "nrpy/equations/general_relativity/LorentzBoost.py"), ("rotate", "nrpy/equations/quaternion_rotations/tensor_rotation.py")],
      SYM, "proof", "All components proved for generic tensors and all points, velocities and angles by normal form. Uses the Jacobian contract proved in C10; boosts need 0<|v|<1."),
    P("C12", "ADM, BSSN and four-metric variables describe the same geometry",
      "For every admissible metric and each choice of evolved conformal factor (W, chi, phi): converting ADM to BSSN variables gives a conformal metric of the reference determinant in the same conformal class, the trace and trace-free parts of the extrinsic curvature and rescaled shift; converting back recovers the ADM variables, and every stored first and second derivative is the derivative of the stored quantity; the conformal Ricci tensor is the Ricci tensor of the conformal metric when the evolved connection vector has its defining value; the four-metric and its inverse are those of the line element and convert back; matter sources are the normal and spatial projections of the stress-energy tensor and enter the evolution and constraint equations with the standard coefficients; with a precomputed reference metric or with Ricci gridfunctions the same values result.",
      ["inputs", "configurations"], "all field values and derivatives; conformal-factor choices, coordinate systems and options enumerated",
      "tests compare hashes with stored ones for one conformal-factor choice, so they only show that nothing changed there; other choices are never evaluated",
      ["nrpy/equations/general_relativity/ADM_to_BSSN.py", "nrpy/equations/general_relativity/BSSN_to_ADM.py", "nrpy/equations/general_relativity/BSSN_quantities.py", "nrpy/equations/general_relativity/g4munu_conversions.py", "nrpy/equations/general_relativity/T4munu.py"],
      [("ADM_to_BSSN, BSSN_to_ADM", "nrpy/equations/general_relativity"), ("BSSNQuantities", "nrpy/equations/general_relativity/BSSN_quantities.py"), ("ADM_to_g4DD/UU, g4DD_to_ADM, g4DD_to_BSSN", "g4munu_conversions.py"), ("T4UU_and_ADM_to_SDD_SD_S_rho, BSSN_*_T4UU_source_terms", "T4munu.py")],
      SYM, "proof", "About 97% of the obligations are proved for all field values by normal form with fields as functions of the coordinates; the Ricci identity is checked on random polynomial metrics at 60 digits (bounded). g4DD_to_ADM is a known finding."),
    P("C14", "Every stored time-integration table has its claimed order of accuracy",
      "Every Runge-Kutta table integrates every smooth ordinary differential equation with the order of accuracy stored with it: all rooted-tree order conditions hold and each stage time is the sum of its row; for embedded pairs the high-order weights have the stored order and the low-order weights one less; SSPRK3 is strong-stability preserving. The Adams-Bashforth coefficients of every order n are those of the order-n formula.",
      ["inputs", "configurations"], "all right-hand sides (Butcher's theorem); tables enumerated",
      "tests integrate eight sample equations with five of the tables; the other sixteen are never checked",
      ["nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py"],
      [("generate_Butcher_tables", "nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py")],
      SYM, "proof", "Exact arithmetic on the tables returned by the code; the postcondition is the full set of order conditions (rooted trees up to 8 nodes)."),
    P("C15", "The generated time stepper performs exactly the chosen Runge-Kutta step",
      "For every non-adaptive method, every right-hand side and every boundary routine, one call of the generated step function evaluates the right-hand side once per stage at time t + c_i dt on y + dt sum a_ij k_j, applies the boundary routine to each stage input before it is used and to the result, leaves y + dt sum b_i k_i in y_n on every grid, finishes each stage on all grids before the next, and advances time and step counter consistently. The generated storage code allocates every array it uses with the full size, points the diagnostic arrays at two different scratch arrays and frees each array exactly once. The same holds for the staged superB stepper, whose lists of arrays to synchronise name the arrays each stage writes. Adaptive tables are rejected.",
      ["inputs", "configurations", "histories"], "all data, dt, right-hand sides and boundary routines; methods and options enumerated",
      "one test compares the generated text for RK4; other methods are never generated, and no test executes the stepper",
      ["nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py", "nrpy/infrastructures/superB/MoL.py"],
      [("register_CFunctions, register_CFunction_MoL_step_forward_in_time, generate_gridfunction_names, register_CFunction_MoL_malloc, register_CFunction_MoL_free_memory", "nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py"), ("register_CFunctions, generate_post_rhs_output_list, generate_rhs_output_exprs", "nrpy/infrastructures/superB/MoL.py")],
      GEN, "proof", "The generated C is executed symbolically with the right-hand side and boundary routine uninterpreted; 99% of the obligations are proved for all data; only the loop macro and the sync lists are executed for sample sizes (bounded)."),
    P("C08", "Registered C functions are written, declared, built, dispatched and scheduled",
      "Every function registered for a project is emitted exactly once, in its own file in the requested folder, with its includes reaching the project-root headers from any folder depth, its body, prefix and suffix code unchanged, and a prototype equal to its definition; a second registration under the same name, or one missing its name, description or body, is rejected and changes nothing. The generated build files compile and link every function exactly once with the requested flags, include folders and libraries, for executables and for static, shared and prefixed libraries. A coordinate-system wrapper forwards all its arguments, in order, to exactly the version for the grid's coordinate system and stops on any other value. Toolkit thorns list every source file and every scheduled entry of the thorn, each once, and no other thorn's. Parallel code generation registers the same functions, gridfunctions, parameters and extras as serial generation and reports a failing task.",
      ["inputs", "configurations", "histories"], "all registration histories (footprint obligation); attribute combinations and project layouts enumerated",
      "tests build example projects with one compiler setting each, and never look at folder depth, libraries, wrappers with unusual signatures, or thorns with several schedule bins",
      ["nrpy/c_function.py", "nrpy/infrastructures/BHaH/Makefile_helpers.py", "nrpy/infrastructures/superB/Makefile_helpers.py", "nrpy/infrastructures/BHaH/rfm_wrapper_functions.py", "nrpy/infrastructures/ETLegacy/make_code_defn.py", "nrpy/infrastructures/CarpetX/make_code_defn.py", "nrpy/infrastructures/ETLegacy/schedule_ccl.py", "nrpy/infrastructures/CarpetX/schedule_ccl.py", "nrpy/helpers/parallel_codegen.py"],
      [("CFunction, register_CFunction", "nrpy/c_function.py"), ("output_CFunctions_function_prototypes_and_construct_Makefile", "nrpy/infrastructures/BHaH/Makefile_helpers.py"), ("register_CFunctions_CoordSystem_wrapper_funcs", "nrpy/infrastructures/BHaH/rfm_wrapper_functions.py"), ("construct_schedule_ccl", "nrpy/infrastructures/ETLegacy/schedule_ccl.py"), ("do_parallel_codegen", "nrpy/helpers/parallel_codegen.py")],
      GEN, "other", "Registry frame obligations hold for every history; the text and build contracts are exhaustive over enumerated attributes and layouts (bounded)."),
    P("C16", "Curvilinear boundary conditions fill every ghost point with the right value",
      "On every grid of every coordinate system, each ghost point is filled exactly once and interior points are never touched. A ghost point that coincides physically with another grid point (coordinate axis, origin, periodic angle) receives the value there times the sign relating the two sets of basis vectors for the tensor type of that gridfunction. Every other ghost point is an outer boundary point, filled from the inside out from neighbours that are already final: by extrapolation exact for quadratic data, or in the time derivative by the outgoing-radiation condition with the wave speed and asymptotic value of that gridfunction, radial derivatives by differences of the requested order whose points all lie on the grid, and the 1/r^3 correction matched at the inward neighbour. The parity type of each gridfunction follows its tensor indices.",
      ["inputs", "configurations"], "all field values and coordinates; coordinate systems, orders and grid sizes enumerated",
      "the code only exists after generation; tests generate it and compare text, and never run it on a grid",
      ["nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py"],
      [("register_CFunction_bcstruct_set_up, Cfunction__EigenCoord_set_x0x1x2_inbounds__i0i1i2_inbounds_single_pt, Cfunction__set_parity_for_inner_boundary_single_pt", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py"), ("register_CFunction_apply_bcs_inner_only, register_CFunction_apply_bcs_outerextrap_and_inner, register_CFunction_apply_bcs_outerradiation_and_inner", "CurviBoundaryConditions.py")],
      GEN, "other", "Parity products, radius and radial derivatives, one-sided differences, stencil placement and the radiation formula are proved from the generated C for all data; index maps and fill order are executed on every point of the listed grids against a geometric oracle (bounded)."),
    P("C13", "BSSN evolution, gauge and constraint expressions are Einstein's equations",
      "For every coordinate system, choice of evolved conformal factor (W, chi, phi) and combination of options (reference-metric precomputation, stress-energy source terms, Ricci tensor as gridfunctions), the right-hand sides of h_ij, a_ij, cf, trK and lambda^i are the time derivatives which the 3+1 (ADM) form of Einstein's equations gives for the stored variables, up to the documented multiples of the Hamiltonian (in trK) and momentum (in Lambdabar^i) constraints; the constraint expressions H, M^i and its square are those of the physical metric, extrinsic curvature and stress-energy tensor; upwinded derivatives enter only as the advection term along the shift; and each lapse and shift condition has the right-hand side of its published definition, in which every covariant derivative is taken with the connection named. Unknown or unsupported gauge combinations are rejected, and what is returned does not depend on which options were requested earlier.",
      ["inputs", "configurations", "histories"], "all smooth fields obeying the algebraic constraints; coordinate systems, conformal factors, options and gauges enumerated",
      "trusted values only pin the numbers of the default conformal factor at one point for a few coordinate systems; nothing compares the expressions with Einstein's equations",
      ["nrpy/equations/general_relativity/BSSN_RHSs.py", "nrpy/equations/general_relativity/BSSN_gauge_RHSs.py", "nrpy/equations/general_relativity/BSSN_constraints.py", "nrpy/equations/general_relativity/BSSN_quantities.py"],
      [("BSSNRHSs", "nrpy/equations/general_relativity/BSSN_RHSs.py"), ("BSSN_gauge_RHSs", "nrpy/equations/general_relativity/BSSN_gauge_RHSs.py"), ("BSSNconstraints", "nrpy/equations/general_relativity/BSSN_constraints.py")],
      SYM, "other", "Each right-hand side is compared with the ADM equations in truncated Taylor arithmetic at 50 digits on random smooth fields, for every coordinate system and option set (polynomial identity test, counted as bounded)."),
    P("C18", "Numerical grids, coordinate maps and time step are set up correctly",
      "For every coordinate system and every requested size, extent, convergence factor and CFL factor: the number of points per dimension, spacings, inverse spacings, and every cell-centred coordinate value (ghost points included) follow from the coordinate ranges; the outer (and for hollow grids inner) boundary lies at the requested physical radius; xx_to_Cart is the coordinate map plus the grid origin; Cart_to_xx_and_nearest_i0i1i2 inverts it for every point of the grid and returns the cell containing the point, for origins given locally or globally; the time step is the CFL factor times the smallest proper distance between neighbouring interior points over all grids; and the grids of the superB chares tile the global grid with the same coordinates, extents and spacings.",
      ["inputs", "configurations"], "all parameter values; coordinate systems and gridding options enumerated",
      "the generated C exists only after code generation; tests compare its text or compile it, and never run it over parameter values",
      ["nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py", "nrpy/infrastructures/BHaH/xx_tofrom_Cart.py", "nrpy/infrastructures/superB/numerical_grids.py"],
      [("register_CFunction_numerical_grid_params_Nxx_dxx_xx, register_CFunction_cfl_limited_timestep, register_CFunction_numerical_grids_and_timestep", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py"), ("register_CFunction_xx_to_Cart, register_CFunction__Cart_to_xx_and_nearest_i0i1i2", "nrpy/infrastructures/BHaH/xx_tofrom_Cart.py"), ("register_CFunction_numerical_grid_params_Nxx_dxx_xx_chare", "nrpy/infrastructures/superB/numerical_grids.py")],
      GEN, "other", "The generated C is executed symbolically along every path; each postcondition is an identity of the resulting terms (proved). Inverse maps are additionally evaluated at points of every coordinate range (bounded)."),
    P("C17", "Parameter files and command line set exactly what the user wrote",
      "For every set of registered commondata parameters (REAL, int, bool, char[n], REAL[n], int[n]) and every steerable list, the generated parser reads <project>.par, or the file named as the first argument, and then applies the command-line values of the steerable parameters, whatever the file holds: each parameter that is set has exactly the value written (all elements of an array, a string without its surrounding quotes), parameters not mentioned keep their value, layout, blank lines and comments do not matter, names that are not parameters are reported and skipped. Input it cannot honour (a value that is not a number of the type or does not fit it, trailing text, a duplicate, a wrong array length, unclosed bracket or brace, an invalid name, a string longer than its buffer, a missing file, a wrong number of arguments) ends the run with a message and a nonzero status, and no input makes it touch memory outside its buffers. The default parameter file lists every parameter once and, read back, gives the registered defaults.",
      ["inputs", "configurations"], "parameter sets enumerated; parameter files of lines up to 1023 characters, scalar values up to 127; helpers for every content of scaled-down buffers",
      "tests look at the text of one default parameter file; the parser itself is never run on any input by them, and its guarantee is about all inputs",
      ["nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py"],
      [("register_CFunction_cmdline_input_and_parfile_parser, generate_default_parfile", "nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py")],
      GEN, "other", "Contracts on the generated C helpers are checked by CBMC for every buffer content at scaled-down sizes, and the compiled parser is compared with the contract's reading over an enumerated grammar of inputs under sanitizers; all counted as bounded."),
    P("C19", "Exact solutions, initial data and sources satisfy their equations",
      "The wave-equation solutions solve the wave equation for every wave speed, width and wave vector, with vv the time derivative of uu and finite limits at the origin. In every coordinate system, with or without reference-metric precomputation, the wave and hyperbolic-relaxation right-hand sides are the wave speed squared times the Laplacian of uu plus the puncture source (minus the damping term); psi_background is 1 plus half the bare masses over distance and ADD_times_AUU the square of the Bowen-York curvature of the two punctures' momenta and spins. Black-hole data (Brill-Lindquist, UIUC, static trumpet, offset Kerr-Schild) satisfy the Hamiltonian and momentum constraints, are slices of the named Schwarzschild or Kerr spacetime, and where a lapse and shift are given are stationary; the standard gauge is alpha = psi^-2 with zero shift for each choice of evolved conformal factor. The TOV right-hand sides are those of a static fluid sphere. The generated kernels for initial data, sources, wave speed, right-hand sides, residual, its volume-weighted L2 norm and the stop test compute these values at every point they cover, and touch no others.",
      ["inputs", "configurations"], "all parameter values and positions away from singular points; coordinate systems, data types and kernel options enumerated",
      "trusted values pin the expressions' numbers at one point for a few coordinate systems; nothing checks that they solve the equations, and the generated kernels are compiled but not compared with anything",
      ["nrpy/equations/wave_equation", "nrpy/equations/nrpyelliptic", "nrpy/equations/general_relativity/InitialData_Spherical.py", "nrpy/equations/general_relativity/InitialData_Cartesian.py", "nrpy/equations/tov/TOV_equations.py", "nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py", "nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py"],
      [("WaveEquation_solution_Cartesian, WaveEquationCurvilinear_RHSs, WaveEquation_RHSs", "nrpy/equations/wave_equation"), ("HyperbolicRelaxationCurvilinearRHSs, compute_psi_background_and_ADD_times_AUU", "nrpy/equations/nrpyelliptic"), ("InitialData_Spherical, InitialData_Cartesian", "nrpy/equations/general_relativity"), ("register_CFunction_initial_data, register_CFunction_rhs_eval, register_CFunction_compute_residual_all_points, register_CFunction_compute_L2_norm_of_gridfunction", "nrpy/infrastructures/BHaH")],
      SYM, "other", "Differential and algebraic identities of the real expressions are proved by normal form; constraints are evaluated in Taylor arithmetic at random points, and compiled kernels compared point by point on polynomial data (bounded)."),
    P("C22", "Checkpoints resume exactly; programs run their steps and free their memory",
      "A generated program that is stopped after any step, or killed while it writes a checkpoint, and then started again with the same parameter file continues from a state of the uninterrupted run and passes through exactly the same states, times, step numbers and grid parameters afterwards, for any number of grids, time-stepping method, boundary condition and apparent-horizon data. Checkpoints are written at the steps nearest to multiples of checkpoint_every and writing one changes nothing in the running program; a run with another convergence factor does not pick it up; without a checkpoint the run starts from the initial data. The main loop takes steps of dt from t = 0 until t_final is reached. Every block of memory is allocated before it is used, never used outside its bounds, and freed exactly once by the end of the run, whether or not the run resumed from a checkpoint.",
      ["inputs", "histories", "crash_points", "configurations"], "every step and every write call of a checkpoint as the point of interruption; programs enumerated",
      "tests generate and compile the programs and never run them, let alone interrupt and resume them",
      ["nrpy/infrastructures/BHaH/checkpointing.py", "nrpy/infrastructures/BHaH/main_c.py", "nrpy/infrastructures/BHaH/griddata_commondata.py", "nrpy/infrastructures/BHaH/MoLtimestepping"],
      [("register_CFunction_read_checkpoint, register_CFunction_write_checkpoint", "nrpy/infrastructures/BHaH/checkpointing.py"), ("register_CFunction_main_c", "nrpy/infrastructures/BHaH/main_c.py"), ("register_CFunction_griddata_free", "nrpy/infrastructures/BHaH/griddata_commondata.py")],
      GEN, "other", "The contracts of write_checkpoint, read_checkpoint, main and griddata_free are evaluated on whole programs assembled by the real generators, over every interruption point of runs of ten steps, with bitwise state comparison and a record of every allocation (bounded)."),
    P("C20", "Generated GR kernels and initial data realise the BSSN system as requested",
      "In every coordinate system, for each choice of evolved conformal factor, finite-difference order, reference-metric precomputation, vectorisation and source terms, the generated BlackHoles@Home kernels compute at every interior point the BSSN right-hand sides, Ricci tensor and constraints with the requested gauge, plus exactly the requested extra terms (Kreiss-Oliger dissipation on each field with its own strength, curvature-aware dissipation, Hamiltonian-constraint damping, slow-start lapse), and write no other point or field; enforcing the determinant constraint rescales h_ij to unit determinant ratio and changes nothing else. Initial data given as ADM data in Spherical or Cartesian coordinates (any origin), with or without a stress-energy tensor, are converted at every grid point, ghost points included, to the BSSN variables of exactly these fields in the grid's basis, with lambda^i the finite-difference value at every interior point.",
      ["inputs", "configurations"], "all field values; coordinate systems and option sets enumerated",
      "tests generate and compile these kernels for one option set per example and never run them; trusted values pin only the expressions they start from",
      ["nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py", "nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py"],
      [("register_CFunction_rhs_eval, register_CFunction_Ricci_eval, register_CFunction_constraints, register_CFunction_enforce_detgammabar_equals_detgammahat, register_CFunction_initial_data", "nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py"), ("register_CFunction_initial_data_reader__convert_ADM_Sph_or_Cart_to_BSSN, Cfunction_ADM_SphorCart_to_Cart, Cfunction_ADM_Cart_to_BSSN_Cart, Cfunction_BSSN_Cart_to_rescaled_BSSN_rfm, Cfunction_initial_data_lambdaU_grid_interior", "nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py")],
      GEN, "other", "Each kernel's contract (direct-form expressions of C13 with the stencils of C01 plus the option terms) and its frame condition are evaluated at every point of compiled kernels on random fields (bounded)."),
    P("C21", "psi4, its tetrad and its spin-weighted modes are those of the spacetime",
      "In every coordinate system, for each evolved conformal factor, the quasi-Kinnersley tetrad is null and normalised (l.n = -1, m.mbar = 1, all other products zero) with respect to the spacetime metric, and the real and imaginary part of psi4 equal the Weyl-tensor contraction C(n, mbar, n, mbar) of the spacetime evolved, in vacuum. The spin-weighted spherical harmonics are those of the rotation group for every s, l, m, and the generated function returns them for every listed mode. The generated psi4 kernels give these values at every interior point; the mode decomposition integrates psi4 against the conjugate harmonics over the sphere at each requested radius inside the grid, one file and one line per mode and time, never using values outside the interior, and skips radii that are not on the grid.",
      ["inputs", "configurations"], "all field values and angles; coordinate systems, conformal factors and modes enumerated",
      "trusted values pin the expressions at one point; nothing compares them with the curvature of a spacetime, and the decomposition is compiled but never run",
      ["nrpy/equations/general_relativity/psi4.py", "nrpy/equations/general_relativity/psi4_tetrads.py", "nrpy/equations/special_functions/spin_weighted_spherical_harmonics.py", "nrpy/infrastructures/BHaH/general_relativity/psi4_C_codegen_library.py", "nrpy/infrastructures/BHaH/special_functions/spin_weight_minus2_spherical_harmonics.py"],
      [("Psi4", "nrpy/equations/general_relativity/psi4.py"), ("Psi4Tetrads", "nrpy/equations/general_relativity/psi4_tetrads.py"), ("Y", "nrpy/equations/special_functions/spin_weighted_spherical_harmonics.py"), ("register_CFunction_psi4_part, register_CFunction_psi4_spinweightm2_decomposition_on_sphlike_grids", "nrpy/infrastructures/BHaH/general_relativity"), ("register_CFunction_spin_weight_minus2_sph_harmonics", "nrpy/infrastructures/BHaH/special_functions/spin_weight_minus2_spherical_harmonics.py")],
      SYM, "other", "Tetrad and psi4 are compared with the Weyl tensor in Taylor arithmetic at 50 digits, harmonics with rotation matrices at 40 digits; the generated kernels and decomposition are run and compared point by point (bounded)."),
    P("C23", "Einstein Toolkit thorns evolve and convert the BSSN variables as scheduled",
      "In a generated Carpet or CarpetX spacetime thorn, for every option set (finite-difference order, evolved conformal factor, vectorisation, stress-energy source, gauge, dissipation, constraint damping, slow-start lapse): converting ADMBase data to BSSN variables and back reproduces them; Ricci tensor, right-hand sides and constraints are those of the BSSN system with the requested terms at every interior point; stress-energy components are raised with the spacetime metric; the lapse floor, the determinant constraint and the initialisation of the right-hand sides act on every point as defined; and each function writes only the variables and points its schedule entry declares, reads only those it declares, and uses only parameters the thorn registers. Every evolved variable is registered for time integration, given the radiation boundary condition with its flat-space value at infinity, its speed and its reflection symmetries; diagnostic variables get flat boundaries over all ghost zones. The schedule runs the functions in an order in which inputs are computed before they are used, and each order of accuracy only when it is selected.",
      ["inputs", "configurations", "schedules"], "all field values; option sets enumerated",
      "tests generate two thorns as text; without the Toolkit nothing compiles or runs them",
      ["nrpy/infrastructures/ETLegacy/general_relativity", "nrpy/infrastructures/CarpetX/general_relativity", "nrpy/infrastructures/ETLegacy/boundary_conditions.py", "nrpy/infrastructures/ETLegacy/Symmetry_registration.py", "nrpy/infrastructures/ETLegacy/MoL_registration.py", "nrpy/infrastructures/ETLegacy/zero_rhss.py", "nrpy/infrastructures/CarpetX/boundary_conditions.py", "nrpy/infrastructures/CarpetX/zero_rhss.py"],
      [("register_CFunction_rhs_eval, register_CFunction_Ricci_eval, register_CFunction_BSSN_constraints, register_CFunction_ADM_to_BSSN, register_CFunction_BSSN_to_ADM, register_CFunction_T4DD_to_T4UU, register_CFunction_floor_the_lapse, register_CFunction_enforce_detgammahat_constraint, register_CFunction_RegisterSlicing", "nrpy/infrastructures/ETLegacy/general_relativity and nrpy/infrastructures/CarpetX/general_relativity"), ("register_CFunctions", "nrpy/infrastructures/ETLegacy/boundary_conditions.py and CarpetX/boundary_conditions.py")],
      GEN, "other", "All functions of each generated thorn are compiled against a stand-in for the Cactus flesh that declares exactly what each schedule entry reads and writes, run on random fields, and compared at every point with their contracts (bounded)."),
    P("C24", "Relativistic hydrodynamics is conservation of a perfect fluid's stress-energy",
      "In every coordinate system, for each evolved conformal factor and with or without reference-metric precomputation: the stress-energy tensor is that of a perfect fluid with the given four-velocity, density, pressure and enthalpy in the spacetime metric; the conserved variables (rest mass, electron fraction, energy, momentum) and their fluxes are its densitised components, rescaled by the reference-metric factors where so named; and source plus connection terms are exactly what the divergence of stress-energy and rest mass leaves over, so that a solution of the generated equations conserves both. Characteristic speeds are the two roots of the sound-cone relation in the flux direction, ordered; cmax and cmin bound both sides of a face and zero; HLL fluxes satisfy the jump conditions of the two-wave fan with these speeds for all six conserved variables. The branch-free minimum, maximum and comparison expressions equal the functions they name for all real arguments.",
      ["inputs", "configurations"], "all fluid states, metrics and their derivatives; coordinate systems, conformal factors and directions enumerated",
      "trusted values pin each expression at one point for some coordinate systems, never with precomputation; nothing relates sources to the divergence of the tensor",
      ["nrpy/equations/grhd/GRHD_equations.py", "nrpy/equations/grhd/characteristic_speeds.py", "nrpy/equations/grhd/HLL_fluxes.py", "nrpy/equations/grhd/Min_Max_and_Piecewise_Expressions.py"],
      [("GRHD_Equations", "nrpy/equations/grhd/GRHD_equations.py"), ("find_cp_cm, find_cmax_cmin", "nrpy/equations/grhd/characteristic_speeds.py"), ("HLL_solver, calculate_HLL_fluxes", "nrpy/equations/grhd/HLL_fluxes.py"), ("min_noif, max_noif, coord_leq_bound, coord_geq_bound, coord_less_bound, coord_greater_bound", "nrpy/equations/grhd/Min_Max_and_Piecewise_Expressions.py")],
      SYM, "proof", "Contracts stated with the four-dimensional metric and Christoffel symbols; obligations discharged by algebraic normal form or z3, identities too large for the normal form tested at random points (reported as bounded)."),
    P("C25", "Caches, generated files and inline scripts are exactly what was asked for",
      "A result taken from the on-disk cache equals the result of computing it afresh, whatever was requested before, however many processes share the cache and wherever an earlier process was killed while writing; different requests never share an entry and an entry that could not be stored leaves nothing behind. Formatted code is the formatter's output for that text and style. A file written through the conditional updater afterwards holds the requested text (up to blank space at its ends), is left untouched, time stamp included, when nothing changed, and keeps its old content when producing the new one fails; no other file is touched. Files copied into a project are byte-identical. Scripts embedded between NRPYSTART and NRPYEND, in any comment style, run with their own indentation, in order, in one namespace; misplaced markers are rejected.",
      ["inputs", "histories", "crash_points", "schedules"], "every byte at which a cache write can stop; request histories, file contents and comment layouts enumerated",
      "tests use one process, an intact cache and one comment layout per marker style",
      ["nrpy/helpers/cached_functions.py", "nrpy/helpers/generic.py", "nrpy/helpers/conditional_file_updater.py", "bin/nrpyinline.py"],
      [("write_cached, read_cached, is_cached, cached_simplify", "nrpy/helpers/cached_functions.py"), ("clang_format, copy_files", "nrpy/helpers/generic.py"), ("ConditionalFileUpdater", "nrpy/helpers/conditional_file_updater.py"), ("strip_comment_markers, run_script_from_file", "bin/nrpyinline.py")],
      GEN, "fault_enumeration", "Contracts evaluated on the real functions; crash points of each cache write enumerated byte by byte (bounded, no proof claimed)."),
    P("C26", "Chare-parallel programs reproduce the whole-grid program for any decomposition",
      "A superB program evolves, on each chare, exactly the slice of the whole grid that the single-grid program for the same equations evolves: for every decomposition whose extents divide evenly, every order in which the messages of different chares arrive, every Runge-Kutta method, radiation or extrapolation outer boundaries and inner (symmetry) boundaries whose source points lie on other chares, the evolved variables of every chare, ghost zones included, its coordinates and its time agree with the whole grid's after every step; synchronised auxiliary variables are current in the ghost zones when they are read. Every run ends, no chare waits for a message nobody sends. The 1D and 2D output files hold one row for each whole-grid diagnostic point with its value at that time, each byte of each file written by exactly one chare. Continuing from a checkpoint gives the same results as continuing without.",
      ["inputs", "configurations", "schedules", "histories"], "delivery orders sampled by a seeded scheduler; decompositions, coordinate systems and methods enumerated; fields generic",
      "Charm++ is not available to the tests: they generate the superB projects as text and nothing compiles or runs them",
      ["nrpy/infrastructures/superB/timestepping_chare.py", "nrpy/infrastructures/superB/main_chare.py", "nrpy/infrastructures/superB/chare_communication_maps.py", "nrpy/infrastructures/superB/CurviBoundaryConditions.py", "nrpy/infrastructures/superB/numerical_grids.py", "nrpy/infrastructures/superB/MoL.py", "nrpy/infrastructures/superB/diagnostics.py", "nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py", "nrpy/infrastructures/superB/superB/superB_pup.py"],
      [("output_timestepping_h_cpp_ci_register_CFunctions (send_neighbor_data, process_ghost, send_nonlocalinnerbc_data, process_nonlocalinnerbc, pup)", "nrpy/infrastructures/superB/timestepping_chare.py"), ("chare_comm_register_C_functions", "nrpy/infrastructures/superB/chare_communication_maps.py"), ("CurviBoundaryConditions_register_C_functions", "nrpy/infrastructures/superB/CurviBoundaryConditions.py"), ("register_CFunction_superB_pup_routines", "nrpy/infrastructures/superB/superB/superB_pup.py"), ("register_CFunction_diagnostics_set_up_nearest_1d_axis, register_CFunction_diagnostics_set_up_nearest_2d_plane", "nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py")],
      RUN, "other", "The single-grid program is the contract; the generated chare program, with its .ci files translated mechanically onto a small deterministic runtime, is run for enumerated decompositions and sampled delivery orders and compared value by value (bounded, no proof claimed)."),
    P("C27", "Initial-data solvers return solutions of the constraint equations",
      "The generated initial-data solvers return what they are asked for. Two punctures: for every mass ratio, separation, momenta, spins and bare or target masses, the returned metric is psi^4 times the flat one with psi - 1 - sum of m/2r regular at both punctures and satisfying the Hamiltonian constraint to the spectral accuracy of the resolution, the extrinsic curvature is Bowen and York's for the requested momenta and spins with the two holes at their places (centre of mass at the origin) in the rotated frame, puncture masses are the requested ones and the reported total mass and angular momentum are those of the data. Neutron star: for every polytrope the returned lapse, metric and stress-energy tensor solve the Tolman-Oppenheimer-Volkoff equations and the equation of state in isotropic coordinates from the centre to the surface and are Schwarzschild's outside. Quasicircular momenta are the post-Newtonian ones for the masses and spins of the two holes, each with its own spin.",
      ["inputs", "configurations"], "masses, spins, momenta, equations of state and points sampled; every component of the returned data at each",
      "the tests generate the solvers as text; nothing compiles them or looks at the data they return",
      ["nrpy/infrastructures/BHaH/general_relativity/TwoPunctures", "nrpy/infrastructures/BHaH/general_relativity/TOVola", "nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py"],
      [("register_CFunction_TP_solve", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_solve.py"), ("register_CFunction_TP_Interp", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py"), ("register_CFunction_TP_Equations", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/Equations.py"), ("register_CFunction_initialize_ID_persist_struct", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/ID_persist_struct.py"), ("register_CFunction_TOVola_solve", "nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_solve.py"), ("register_CFunction_TOVola_interp", "nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_interp.py"), ("register_CFunction_NRPyPN_quasicircular_momenta", "nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py")],
      RUN, "other", "66 obligations on the solver's functions (Bowen-York tensor, constraint and linearisation, coordinate transformations, TOV right-hand sides) proved for all inputs; the postconditions of the whole solvers evaluated on their compiled answers at sampled points and parameters (bounded)."),
]

NOT_APPLICABLE = []
