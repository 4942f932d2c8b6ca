"""Which harnesses decide which property."""
import os

COMMON_ASSUMPTIONS = [
    "R mode: double arithmetic is treated as exact real arithmetic (rounding is outside the claim); decimal literals stand for the rational they spell",
    "expressions used as divisors are non-zero and radicands/logarithm arguments are in the domain on every path that evaluates them",
    "the lowering by clang 18 at -O1 and the engine's LLVM-IR semantics are trusted, validated by replaying a witness of explored paths against a g++ build",
    "heap allocation succeeds",
]


def H(file, entry, **kw):
    kw.update(file=file, entry=entry)
    return kw


MF = ["mfem_models.cpp", "std_models.cpp"]
LS = dict(units=["src/common/linesearch.cpp"])
OP = dict(models=MF, units=["src/common/orthopoly.cpp", "src/utils/utils.cpp"])
SB = dict(models=MF + ["fe_models.cpp"], units=["src/common/sbp_fe.cpp", "src/common/orthopoly.cpp", "src/utils/utils.cpp"], opts=["--ieee"])
UT = dict(models=MF, units=["src/utils/utils.cpp"])
LSQ = dict(models=MF + ["lapack_models.cpp"], units=["src/utils/utils.cpp"], defs=["-DMFEM_USE_LAPACK"], libs=["-lmfem", "-lmpi_cxx", "-lmpi", "-ldl", "-llapack", "-lblas"])
NW = dict(models=MF + ["solver_models.cpp"], units=["src/common/inexact_newton.cpp", "src/common/relaxed_newton.cpp", "src/common/linesearch.cpp", "src/common/mfem_extensions.cpp", "src/common/matrix_operators.cpp", "src/utils/utils.cpp"],
          native_units=["src/physics/miso_input.cpp"], opts=["--ieee"])
TI = dict(models=MF + ["solver_models.cpp", "block_models.cpp"], opts=["--ieee"], libs=["-lmfem", "-lmpi_cxx", "-lmpi", "-lHYPRE", "-ldl"],
          units=["src/common/ode.cpp", "src/common/evolver.cpp", "src/common/matrix_operators.cpp", "src/common/mfem_extensions.cpp", "src/physics/miso_input.cpp", "src/utils/utils.cpp"],
          native_units=["src/common/relaxed_newton.cpp", "src/common/linesearch.cpp"])
AS = dict(TI, units=["src/common/default_options.cpp", "src/common/ode.cpp", "src/common/matrix_operators.cpp", "src/common/mfem_extensions.cpp", "src/physics/miso_input.cpp", "src/utils/utils.cpp"])
IN = dict(models=MF + ["solver_models.cpp"], overlay=True, units=["src/utils/utils.cpp"], opts=["--ieee"], libs=["-lmfem", "-lmpi_cxx", "-lmpi", "-lHYPRE", "-ldl", "-Wl,--unresolved-symbols=ignore-all"])
CT = dict(IN, defs=["-DCONTROL"])
EL = dict(models=MF + ["fe_models.cpp", "solver_models.cpp", "elem_sym_models.cpp", "mfem_integ_models.cpp"], native_models=["mfem_integ_models.cpp"], overlay=True, opts=["--ieee"], units=["src/physics/mfem_common_integ.cpp", "src/common/coefficient.cpp", "src/physics/miso_input.cpp", "src/utils/utils.cpp"],
          libs=["-lmfem", "-lmpi_cxx", "-lmpi", "-lHYPRE", "-ldl", "-Wl,--unresolved-symbols=ignore-all"])
EM = dict(EL, units=["src/physics/electromagnetics/electromag_integ.cpp", "src/common/coefficient.cpp", "src/physics/miso_input.cpp", "src/utils/utils.cpp"])
DT = dict(models=["std_models.cpp"], units=["src/common/default_options.cpp", "src/common/material_library.cpp"])
PH = dict(models=MF + ["fe_models.cpp", "solver_models.cpp", "elem_sym_models.cpp", "spline_model.cpp", "coefficient_models.cpp"], native_models=["spline_model.cpp", "coefficient_models.cpp"], overlay=True,
          units=["src/common/coefficient.cpp", "src/common/material_library.cpp", "src/physics/miso_input.cpp", "src/utils/utils.cpp"] + ["src/physics/electromagnetics/%s.cpp" % u for u in
                 ("reluctivity_coefficient", "conductivity_coefficient", "remnant_flux_coefficient", "demag_flux_coefficient", "pm_demag_constraint_coeff", "cal2_kh_coefficient", "cal2_ke_coefficient")],
          libs=["-lmfem", "-lmpi_cxx", "-lmpi", "-lHYPRE", "-ldl", "-Wl,--unresolved-symbols=ignore-all"])
SR = dict(PH, units=["src/common/coefficient.cpp", "src/physics/miso_input.cpp", "src/utils/utils.cpp"] + ["src/physics/electromagnetics/%s.cpp" % u for u in
                    ("current_source_functions", "magnetic_source_functions", "remnant_flux_coefficient")])
PJ = dict(models=MF + ["solver_models.cpp"], defs=["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim_projector")],
          units=["src/utils/irrotational_projector.cpp", "src/utils/div_free_projector.cpp"], native_units=["src/physics/miso_input.cpp"], opts=["--ieee"])
FO = dict(models=MF + ["solver_models.cpp", "utils_plain.cpp"], native_models=["utils_plain.cpp"], opts=["--ieee"], libs=["-lmfem", "-lmpi_cxx", "-lmpi", "-lHYPRE", "-ldl", "-Wl,--unresolved-symbols=ignore-all"],
          defs=["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim_forms")],
          units=["src/physics/miso_nonlinearform.cpp", "src/common/miso_linearform.cpp", "src/common/functional_output.cpp", "src/physics/miso_integrator.cpp", "src/physics/miso_input.cpp"])
FOO = dict(FO, overlay=True, models=FO["models"] + ["outputs_unit.cpp"], native_models=FO["native_models"] + ["outputs_unit.cpp"], units=["src/common/functional_output.cpp", "src/physics/miso_integrator.cpp", "src/physics/miso_input.cpp"])
NO = dict(EL, models=EL["models"] + ["norm_models.cpp"], defs=["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim_norms")], units=["src/physics/finite_element_state.cpp"])
TR = dict(EL, models=EL["models"] + ["norm_models.cpp", "transfer_models.cpp", "utils_plain.cpp"], native_models=EL["native_models"] + ["utils_plain.cpp"], defs=["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim_transfer")], units=["src/utils/l2_transfer_operator.cpp", "src/physics/miso_input.cpp"])
DM = dict(SB, models=MF + ["fe_models.cpp", "elem_sym_models.cpp"], units=SB["units"] + ["src/physics/diag_mass_integ.cpp"])
FE = dict(models=MF + ["fe_models.cpp", "elem_sym_models.cpp"], overlay=True, opts=["--ieee"], units=["src/common/sbp_fe.cpp", "src/common/orthopoly.cpp", "src/utils/utils.cpp"],
          libs=["-lmfem", "-lmpi_cxx", "-lmpi", "-lHYPRE", "-ldl", "-Wl,--unresolved-symbols=ignore-all"])
FJ = dict(models=MF, overlay=True, units=["src/physics/miso_input.cpp", "src/utils/utils.cpp"], native_units=["src/common/sbp_fe.cpp", "src/common/orthopoly.cpp"],
          libs=["-lmfem", "-lmpi_cxx", "-lmpi", "-lHYPRE", "-ldl", "-Wl,--unresolved-symbols=ignore-all"])
SBU = ["src/common/sbp_fe.cpp", "src/common/orthopoly.cpp", "src/utils/utils.cpp"]
CHECKS = {
    "C01": dict(
        bounds="max_iter 0..2 (quick) / 0..3 (thorough), every value of phi, mu, rho_lo, rho_hi in stated ranges",
        harnesses=[
            H("linesearch.cpp", "h_ls_history", reach=["accepted", "failed"], **LS),
            H("linesearch.cpp", "h_ls_nonfinite", reach=["accepted", "failed"], **LS),
            H("linesearch.cpp", "h_ls_quadratic", reach=["second interior", "first interior"], **LS),
            H("linesearch.cpp", "h_ls_cubic", reach=["second interior"], **LS),
            H("linesearch.cpp", "h_ls_phi", models=MF, **LS),
        ]),
    "C02": dict(
        bounds="state length 0..3 (quick) / 0..4 (thorough), all bit patterns; steps 0..120, ranks 0..12, three field names",
        harnesses=[H("logging.cpp", e, mode="FP", models=MF) for e in
                   ("h_log_binary", "h_log_ascii", "h_log_binary_keys", "h_log_ascii_keys", "h_log_binary_replace", "h_log_ascii_replace", "h_log_formats")]),
    "C03": dict(
        bounds="every position of 1..3 points in 2-D, 3 in 3-D, 4 in 1-D (thorough: 4 in 2-D and 3-D, 5 in 2-D), coordinates in [-4,4]; every query of fixed sets of 5..9 points",
        harnesses=[H("kdtree.cpp", e, models=MF) for e in
                   ["h_kd_2d_%d" % i for i in (1, 2, 3)] + ["h_kd_fixed_%dd" % i for i in (1, 2, 3)] +
                   ["h_kd_3d_3", "h_kd_1d_4", "h_kd_refinalize", "h_kd_range", "h_kd_empty"]]
        + [H("kdtree.cpp", e + "s_%d" % i, models=MF, tier="thorough", budget=1500) for e in ("h_kd_2d_4", "h_kd_2d_5", "h_kd_3d_4") for i in range(8)]),
    "C04": dict(
        bounds="rules with 2..9 nodes (thorough 13), Jacobi degree 0..5 (7) with parameters 0..5 and 0..2, Vandermonde degree 5/3/2 (6/5/3) on segment/triangle/tetrahedron, every point of the reference element, every polynomial with coefficients in [-1,1]",
        harnesses=[H("orthopoly.cpp", "h_lobatto", reach=["done"], opts=["--ieee"], **OP),
                   H("orthopoly.cpp", "h_jacobi", reach=["done"], **OP),
                   H("orthopoly.cpp", "h_seg", reach=["done"], **OP),
                   H("orthopoly.cpp", "h_tri", reach=["regular", "vertex"], **OP),
                   H("orthopoly.cpp", "h_tet", reach=["regular", "vertex", "edge"], **OP)]),
    "C05": dict(
        bounds="segments and triangles of degree 0..4, tetrahedra of degree 0..1; every polynomial of the degree with coefficients in [-1,1], every nodal vector in [-1,1]^n, every point of the element, every Jacobian adjugate in [-2,2]; identities to 1e-11",
        harnesses=[H("sbp_fe.cpp", "h_mass", reach=["done"], **SB)] +
                  [H("sbp_fe.cpp", "h_%s_%s" % (k, e), reach=dict(dshape=["node", "copy"], index=["none", "found"]).get(k, ["done"]), **SB)
                   for k in ("acc", "sbp", "proj", "shape", "dshape", "index", "phys") for e in ("seg", "tri", "tet")] +
                  [H("sbp_fe.cpp", e, reach=["done"], **SB) for e in ("h_edges", "h_edges_3d", "h_dsbp", "h_segment_order")] +
                  [H("sbp_fe.cpp", "h_segment_order_%d" % p, known="sbp-segment-order-p%d" % p, **SB) for p in (3, 4)]),
    "C06": dict(
        bounds="dimensions 1, 2 and 3; densities and pressures in [0.1,8], velocities in [-3,3], directions in [-2,2]^d away from zero; the entropy-conservation identity on the branch where the logarithmic mean is not expanded in a series, the series to 1e-13",
        harnesses=[H("euler.cpp", "h_%s_%d" % (k, d), reach=["done"] if k not in ("boundary", "roe") else dict(boundary=["in", "out"], roe=["right", "left", "subsonic"])[k], models=MF)
                   for k in ("state", "derivatives", "shifted", "consistency", "consistency_bnd", "conservation", "dissipation", "tadmor", "entvars", "boundary",
                             "characteristic", "entropy_constrained", "roe", "roe_conserves", "jacobians", "scaling") for d in (1, 2, 3)]
        + [H("euler.cpp", "h_logavg", reach=["series", "log"], models=MF)] + [H("euler.cpp", e, reach=["done"], models=MF) for e in ("h_freestream", "h_vortex", "h_vortex_flux")]),
    "C07": dict(
        bounds="dimensions 1, 2 and 3; density, temperature in [0.1,8], velocity in [-3,3], all gradients in [-4,4], viscosity in [0.01,4] or Sutherland's law, Prandtl number in [0.1,10], Reynolds number in [1,100], wall normals in [-2,2]^d away from zero",
        harnesses=[H("viscous.cpp", "h_%s_%d" % (k, d), reach=["done"], models=MF, overlay=True, native_units=SBU)
                   for k in ("flux", "cij", "wall", "penalty", "dual", "sutherland", "volume", "noslip", "slip", "open") for d in (1, 2, 3)]),
    "C08": dict(
        bounds="root searches of 0..3 (bisection) and 0..2 (secant) iterations (thorough 5 and 4), every value of the function in [-9,9]; vectors of length 1..3 (4), up to 4 attributes; least-squares operators of degree 3/2/1 (4/3/2) in 1/2/3-D on shifted lattices with one point more than the basis, every evaluation point in [-2,2]^d",
        harnesses=[H("utils.cpp", e, reach=r, **UT) for e, r in (("h_bisection", ["found", "failed", "ftol", "xtol"]), ("h_bisection_nan", ["failed"]), ("h_secant", ["found", "failed", "ftol", "xtol"]),
                   ("h_secant_nan", ["failed"]), ("h_secant_steps", ["done"]), ("h_secant_linear", ["done"]), ("h_quadinterp", ["done"]), ("h_elementwise", ["done"]),
                   ("h_kernel", ["done"]), ("h_attributes", ["done", "refused"]), ("h_boundary", ["done", "refused"]), ("h_dispatch", ["done"]))] +
                  [H("utils.cpp", e, reach=["done"], **LSQ) for e in ("h_ls_1", "h_ls_2", "h_ls_3", "h_mn_1", "h_mn_2")]),
    "C09": dict(
        bounds="systems of size 1 and 2, every residual in [-4,4]^n at every evaluation, every correction, Jacobian, right-hand side, tolerance and forcing parameter in stated ranges; 0..1 Newton iterations (thorough 2), line searches of up to 1 backtrack (relaxed) and up to 3 backtracks (inexact)",
        harnesses=[H("newton.cpp", e, reach=r, **NW) for e, r in (("h_inexact_1", ["converged", "failed", "step", "backtrack"]), ("h_inexact_rhs", ["step"]), ("h_inexact_2", ["step", "backtrack"]), ("h_inexact_search", ["backtrack", "step"]), ("h_inexact_nan", ["backtrack"]),
                   ("h_relaxed_1", ["converged", "failed", "step", "stuck"]), ("h_relaxed_rhs", ["step"]), ("h_relaxed_2", ["step"]), ("h_relaxed_nan", ["stuck"]), ("h_relaxed_options", ["done"]), ("h_construct", ["done", "none"]))]),
    "C10": dict(
        bounds="systems of 1 and 2 unknowns (5 in 3 blocks for the block preconditioner); every matrix, vector, coefficient, time and step in stated ranges; explicit tableaux of 1..3 stages with symbolic coefficients and that of RRK6; entropy searches of up to one secant interpolation",
        harnesses=[H("timeint.cpp", e, reach=r, **TI) for e, r in [(e, ["done"]) for e in ("h_sum", "h_sum_wide", "h_sum_tall", "h_sum_sizes", "h_jacfree", "h_jacfree_nonlinear", "h_jacfree_block", "h_jacfree_refuse", "h_stage_identity", "h_stage_block",
                   "h_system", "h_step_steady", "h_step_ptc", "h_rrk6", "h_block_jacobi", "h_block_jacobi_free")] +
                   [("h_ode", ["done", "refused"])] + [(e, ["interpolated", "start"]) for e in ("h_step_rrk_midpoint", "h_step_rrk_1", "h_step_rrk_2", "h_step_rrk_3")]] +
                  [H("solver.cpp", e, reach=r, **AS) for e, r in (("h_march", ["limit", "final time"]), ("h_march_log", ["final time"]))] +
                  [H("timeint.cpp", "h_stage_operand", known="stage-operand", **TI)]),
    "C11": dict(
        bounds="up to 4 names of either kind, all values in [-4,4], vectors of length 0..3; lists of three integrators; a wrapped load and its copy; flow boundary integrators in 1, 2 and 3 dimensions; solver states of 1 and 2 unknowns, two outputs; every parameter, state and norm matrix of the controller in stated ranges",
        harnesses=[H("solver.cpp", e, reach=r, **AS) for e, r in (("h_outputs", ["done", "refused"]), ("h_residual", ["done"]), ("h_adjoint", ["done", "refused"]), ("h_steady", ["done"]), ("h_set_state", ["done"]))] +
                  [H("inputs.cpp", e, reach=r, **IN) for e, r in (("h_scalar", ["done"]), ("h_vector", ["done"]), ("h_conversion", ["done"]), ("h_integrators", ["done", "refused"]), ("h_load", ["done"]), ("h_flow_1", ["done"]), ("h_flow_2", ["done"]), ("h_flow_3", ["done"]))] +
                  [H("inputs.cpp", e, reach=["done"], **CT) for e in ("h_control_inputs", "h_control_norm", "h_control_residual")]),
    "C12": dict(
        bounds="one element (bilinear quadrilateral, linear or lowest-order edge tetrahedron), 1..2 quadrature points, every degree-of-freedom value and adjoint in stated ranges, every node coordinate varied one at a time within 0.125 of a fixed skewed element, coefficients polynomial in position and state; flow flux Jacobians in 1 to 3 dimensions for conservative and entropy variables, states in [-4,8] (density), [-2,2] (momentum), [-8,-0.1] (last entropy variable), every wall, far-field, inflow, outflow and supply boundary (supply rate only for conservative variables: its far-field flux refuses entropy variables)",
        harnesses=[H("functionals.cpp", "h_fn_" + e, reach=["state", "mesh"], **EL) for e in ("volume", "state", "curl", "ie_num", "ie_den", "iec_num", "iec_den")] +
                  [H("functionals.cpp", "h_rs_" + e, reach=["done"], **EL) for e in ("diffusion", "diffusion_rule", "weakdiv", "mass", "vector_load", "curl_load", "load", "domain_res", "mass_res", "diffusion_res")] +
                  [H("electromag.cpp", "h_em_" + e, reach=["state", "mesh"], **EM) for e in ("energy",)] +
                  [H("electromag.cpp", "h_em_" + e, reach=["done"], **EM) for e in ("diffusion_grad", "diffusion_mesh", "curl_grad", "curl_mesh", "curl_products", "magnet")] +
                  [H("flowjac.cpp", "h_flux_%d" % d, reach=["done"], **FJ) for d in (1, 2, 3)] + [H("flowjac.cpp", "h_vortex_" + v, reach=["done"], **FJ) for v in "ce"] +
                  [H("flowjac.cpp", "h_%s_%s%d" % (k, v, d), reach=["done"], **FJ) for k in ("dyadic", "face", "lps", "mass", "wall", "far", "conserve", "control", "outputs", "weighted") for v in "ce" for d in (1, 2, 3)]),
    "C13": dict(
        bounds="lumped mass: segments and triangles of degree 0..2 (thorough 0..4), tetrahedra of degree 0..1, 1..3 states, every affine map with entries 1..2 on and -1/4..1/4 off the diagonal, with a quadratic term of up to 1/16 per direction; projections: a triangle with 1 or 2 inner vertices (thorough: a square with a diagonal) with every symmetric mass matrix near the stated range that depends on one mesh parameter and on the quadrature rule, every edge field and seed in -2..2; MFEM's forms and linear solves are dense models",
        harnesses=[H("projector.cpp", "h_" + e, reach=["done"], **PJ) for e in ("projection", "moved", "irrotational_products", "div_free_products")] +
                  [H("diagmass.cpp", "h_mass_" + e, reach=["done"], **DM) for e in ("affine", "curved", "vary")]),
    "C14": dict(
        bounds="every overlay of up to three keys over nested documents of stated shape; 72 published option defaults; 17 library materials; the B-H splines evaluated at symbolic B over their whole knot range; loss models at 200..600 K and 0.1..2 T",
        harnesses=[H("solver.cpp", e, reach=["done"], **AS) for e in ("h_options", "h_options_later")] +
                  [H("data.cpp", e, reach=["done"], **DT) for e in ("h_defaults", "h_materials", "h_splines", "h_losses")]),
    "C15": dict(
        bounds="material models: every parameter in the stated physical range, splines of degree 2 and 3 with p+2 symbolic control points, loss polynomials of 1..4 terms, temperatures 250..500 K, 0..3 T; sources in 2 and 3 dimensions with every stated kind of winding and magnet, one node coordinate moved, at fixed points of each quadrant (stator windings: fixed angles, every z, stack length and current); manufactured solutions at every point of the unit square or cube, viscosity 0.001..4, Prandtl number 0.1..10",
        harnesses=[H("physics.cpp", e, reach=["done"], **PH) for e in
                   ("h_ph_nu_linear", "h_ph_nu_log", "h_ph_nu_bh", "h_ph_nu_library", "h_ph_sigma", "h_ph_remnant", "h_ph_knee", "h_ph_demag", "h_ph_kh", "h_ph_ke", "h_ph_blend")] +
                  [H("sources.cpp", e, reach=["done"], **SR) for e in ("h_src_current", "h_src_team13", "h_src_current2d", "h_src_cache", "h_src_magnet")] +
                  [H("sources.cpp", "h_src_stator", reach=["body", "end"], **dict(SR, opts=["--ieee"]))] +
                  [H("mms.cpp", "h_mms_" + e, reach=["done"], models=MF, overlay=True, native_units=["src/utils/utils.cpp"]) for e in ("inviscid", "viscous2", "viscous3")]),
    "C16": dict(
        bounds="1 to 3 dimensions; segments and triangles of degree 0..2 (thorough 0..4) and tetrahedra of degree 0..1, with the repository's own SBP operators; 1 to 2 states per node (mass matrix up to 3); maps whose affine part is symbolic (LPS, viscous and mesh-sensitivity entries in more than one dimension use one fixed curved map, whose coefficients are varied by 1/16 in turn); node states, adjoints and directions in [-2,2]; alpha in [-2,2], LPS coefficient in [0,2]; fluxes that are polynomials of the states and metric terms with symbolic coefficients; face rules of at most three nodes, two elements per interior face. Real arithmetic.",
        harnesses=[H("flowelem.cpp", "h_%s_%d" % (k, d), reach=["done"], **FE) for k in ("inviscid", "dyadic", "lps", "mass", "visc") for d in (1, 2, 3)] +
                  [H("flowelem.cpp", "h_%s_%d" % (k, d), reach=["done"], **FE) for k in ("bnd", "vbnd", "iface", "freestream", "bnd_mesh") for d in (2, 3)] +
                  [H("flowelem.cpp", "h_" + k, reach=["done"], **FE) for k in ("uniform_1", "uniform_2", "uniform_3", "dyadic_mesh_1", "dyadic_mesh_2", "dyadic_mesh_3", "energy_c1", "energy_c2")] +
                  [H("flowelem.cpp", "h_uniform_triangle_0", known="viscous-triangle-degree-0", **FE)]),
    "C17": dict(
        bounds="a mesh of three elements, two boundary faces, two interior and two internal boundary faces, four local and three true degrees of freedom on one rank; one integrator on all elements and a second of each kind, with and without a choice of attributes; every choice of essential boundaries; every state, field, scalar, direction, adjoint and boundary value in [-2,2]",
        harnesses=[H("forms.cpp", e, reach=["done"], **FO) for e in ("h_residual", "h_dirichlet", "h_relinearize", "h_linear", "h_functional", "h_functional_named")] +
                  [H("outputs.cpp", e, reach=["done"], **FOO) for e in ("h_average", "h_average_all", "h_curl_average", "h_aggregate", "h_curl_aggregate", "h_volume", "h_mass")]),
    "C18": dict(
        bounds="two quadrilaterals that share two unknowns, one corner moved by up to 1/8, 1 and 2 components, every third nodal value in [-2,2], rules of two points, node weights in [-1,1] for the summation-by-parts families; exponents 1, 2 and infinity; one rank",
        harnesses=[H("norms.cpp", e, reach=["done"], **NO) for e in ("h_l2_scalar", "h_l2_vector", "h_l2_sbp", "h_lp_scalar", "h_lp_vector", "h_lp_sbp", "h_lp_sbp_vector", "h_norm_scalar", "h_norm_vector")]),
    "C19": dict(
        bounds="two curved quadrilaterals that share unknowns of either orientation (lowest order, Az) and a tetrahedron (nodal and edge elements, with a transformation of the degrees of freedom), two output points per element, one coordinate moved by up to 1/8; values: every unknown in [-2,2] (two of them for magnitudes), products: every unknown and coordinate in turn, output adjoints in [-2,2]; magnitudes away from zero; one rank",
        harnesses=[H("transfer.cpp", e, reach=["done"], **TR) for e in ("h_scalar2", "h_scalar3", "h_vector3", "h_curl2", "h_curl3", "h_magnitude2", "h_magnitude3", "h_scalar2_products", "h_scalar3_products", "h_vector3_products", "h_curl2_products", "h_curl3_products", "h_magnitude2_products", "h_magnitude3_products")]),
}
NOT_APPLICABLE = {}
