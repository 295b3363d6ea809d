"""Writes properties.jsonl and MANIFEST.json from the list below (only properties with a check, plus the ones not applicable)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PD, AS, CO, GE, SU = ["src/PythonicDISORT/" + f for f in ("pydisort.py", "_assemble_intensity_and_fluxes.py", "_solve_for_coeffs.py",
                                                         "_solve_for_gen_and_part_sols.py", "subroutines.py")]
P = []


def prop(id, title, statement, over, text, tests, files, mech, assure, observe=(), seconds=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe)), _assure=assure))


SAMPLED = "The suite compares a few dozen fixed atmospheres with stored DISORT output at a few optical depths; "

prop("C01", "Intensity solves the radiative transfer equation inside every layer",
     "At every optical depth strictly inside a layer, the returned intensity satisfies the discrete-ordinate radiative transfer equation of that layer: "
     "for every stream and every Fourier mode, its derivative with respect to optical depth equals extinction minus multiple scattering, beam "
     "single scattering and thermal emission, with the albedo, phase function, thickness and source of that layer (delta-scaled when a scaling "
     "fraction is given). Thermal emission is the user's polynomial in unscaled optical depth times one minus the albedo.",
     ["inputs", "configurations"], "all albedos, phase-function coefficients, thicknesses, beams, boundary values, sources and scaling fractions, for each shape of problem",
     SAMPLED + "no test differentiates the solution or uses more than a few parameter sets, and mixed cases (scaling in one layer, no scattering in another, sources) are hardly reached.",
     [PD, AS, GE, CO, SU], [("eigen-decomposition and particular solutions", GE), ("layer index and scaled optical depth", AS), ("thermal particular solution", SU + " _mathscr_v")],
     "every polynomial identity is decided by z3 for all real inputs in the stated ranges, for each listed problem shape", ["u(tau, phi)"])
prop("C02", "Intensity satisfies the top and bottom boundary conditions",
     "At the top of the atmosphere the downward intensity of every Fourier mode equals the prescribed one; at the bottom the upward intensity of every "
     "mode equals the prescribed one plus the reflection of the downward diffuse intensity and of the attenuated direct beam by the given bidirectional "
     "reflectance mode. A scalar or one-column boundary value acts on the azimuth-independent mode only, and modes without a reflectance do not reflect.",
     ["inputs", "configurations"], "all boundary values in scalar, vector and matrix form, all reflectance functions and parameters, for each shape of problem",
     SAMPLED + "only a few use reflectance and none checks the boundary identity itself; matrix boundary values were never used.",
     [CO, PD, AS], [("boundary rows of the linear system", CO), ("boundary value forms", PD)],
     "decided by z3 for all real inputs in the stated ranges and arbitrary reflectance functions, for each listed problem shape", ["u(tau, phi)"])
prop("C03", "Intensity and fluxes are continuous across layer interfaces",
     "At every interface between two layers, the intensity of every stream, the zeroth mode and the upward, downward diffuse and direct fluxes have the same "
     "value as their limit from below the interface. This holds for both linear solvers, with and without delta scaling, and for the intensity with "
     "single-scattering corrections as well.",
     ["inputs", "configurations"], "all parameters of atmospheres of two to four layers, every interface",
     SAMPLED + "values on both sides of an interface are never compared.",
     [CO, AS, PD], [("continuity rows", CO), ("layer accumulation of the single-scattering correction", PD)],
     "decided by z3 for all real inputs in the stated ranges, for each listed problem shape", ["u(tau, phi)", "Fp(tau)", "Fm(tau)", "u0(tau)"])
prop("C04", "Fluxes, zeroth mode and actinic fluxes are the moments of the intensity",
     "At every optical depth the zeroth mode is the azimuthal mean of the intensity, the upward flux is 2 pi times its cosine-weighted quadrature over the upper "
     "hemisphere, and the downward diffuse flux is the same over the lower hemisphere plus the difference between the delta-scaled and the true direct beam. "
     "The direct flux is the true attenuated beam times its cosine, and the diffuse actinic fluxes are the analogous unweighted quadratures.",
     ["inputs", "configurations"], "all parameters and all optical depths, including layer boundaries, for each shape of problem",
     SAMPLED + "fluxes are compared with DISORT, not with the intensity, and actinic fluxes are checked for one case.",
     [AS, SU], [("flux functions", AS), ("actinic flux functions", SU + " generate_diff_act_flux_funcs")],
     "decided by z3 for all real inputs in the stated ranges, for each listed problem shape", ["Fp(tau)", "Fm(tau)", "u0(tau)", "u(tau, phi)"])
prop("C05", "Antiderivative outputs differentiate back to the outputs",
     "When asked for the antiderivative with respect to optical depth, the intensity (corrected or not), the zeroth mode, the upward, downward diffuse and direct fluxes "
     "and both actinic fluxes return a function whose derivative inside every layer is the ordinary output.",
     ["inputs", "configurations"], "all parameters, every interior point of every layer, for each shape of problem",
     "The suite checks antiderivatives in one notebook-derived case; multi-layer, scaled and thermal cases were wrong in this repository until the fixes recorded in DESIGN.md.",
     [AS, SU, PD], [("antiderivative branches", AS), ("antiderivative of the thermal solution", SU + " _mathscr_v"), ("antiderivative of the corrections", PD)],
     "decided by z3 on the symbolic derivative of the executed code, for all real inputs in the stated ranges", ["is_antiderivative_wrt_tau=True"])
prop("C06", "Delta-M scaling solves the explicitly scaled problem",
     "Giving scaling fractions is the same as solving, without them, the problem whose optical depths, albedos and Legendre coefficients have been delta-M scaled by hand and whose thermal source "
     "is expressed in the scaled optical depth: at corresponding depths the upward flux, the total downward flux, the zeroth mode, the upward and the total downward actinic flux and the intensity agree, "
     "while the reported direct flux is the true unscaled attenuated beam.",
     ["inputs", "configurations"], "all fractions (per layer, zero in some layers), parameters and optical depths for which the explicitly scaled problem is itself acceptable, for each shape of problem",
     SAMPLED + "scaled runs are never compared with explicitly scaled ones.",
     [PD, AS, SU], [("delta-M scaling", PD), ("scaled optical depth and direct beam", AS), ("transformation of the thermal source", SU + " affine_transform_poly_coeffs")],
     "decided by z3 for all real inputs in the stated ranges, for each listed problem shape", ["u(tau, phi)", "Fp(tau)", "Fm(tau)", "u0(tau)", "actinic fluxes"])
prop("C07", "The solution is linear in its sources",
     "The solution for several sources (direct beam, boundary values at the top and at the bottom, thermal emission) is the sum of the solutions for each of them alone, the sum of two complete sets of sources "
     "gives the sum of the solutions, and multiplying every source by a positive factor multiplies every output by it: fluxes, zeroth mode, actinic fluxes, intensity (corrected or not) and their antiderivatives.",
     ["inputs", "configurations"], "all strengths of the sources and all factors, all parameters and optical depths, for each shape of problem",
     SAMPLED + "no two of the solutions are related by linearity; the package rescales the sources internally, so wrong factors cancel in cases with one source.",
     [PD, AS, CO, GE, SU], [("internal rescaling of the sources", PD), ("linear system of the coefficients", CO), ("particular solutions", GE + ", " + SU)],
     "decided by z3 for all real inputs in the stated ranges, for each listed problem shape", ["u(tau, phi)", "Fp(tau)", "Fm(tau)", "u0(tau)", "actinic fluxes"])
prop("C08", "Automatic differentiation gives the derivatives in optical depth",
     "With autograd_compatible=True, the autograd package differentiates every output function with respect to optical depth (intensity with or without single-scattering corrections, zeroth mode, "
     "upward flux, downward diffuse and direct flux, the derived actinic fluxes; scalar or several optical depths, with or without the optional returns): it raises no error, the derivative of an output is its true "
     "derivative, the derivative of an antiderivative output is the output itself, and values at one optical depth do not depend on the others.",
     ["inputs", "configurations"], "all parameters and interior optical depths, for each shape of problem, output and flag",
     "No test sets autograd_compatible; only a notebook does.",
     [AS, PD, SU], [("differentiable branches", AS + ", " + PD), ("thermal particular solution", SU + " _mathscr_v"), ("actinic fluxes", SU)],
     "the code is executed on values that carry their derivative along as autograd does; equality with the symbolic derivative is decided by z3 for all real inputs in the stated ranges",
     ["u(tau, phi)", "Fp(tau)", "Fm(tau)", "u0(tau)", "actinic fluxes", "autograd.jacobian"])
prop("C09", "Algorithm switches do not change the results",
     "The banded and the dense solver, the differentiable and the ordinary variant, and asking for fluxes only or for everything give the same stream angles and the same fluxes, zeroth mode, actinic fluxes and (where returned) intensity and antiderivatives. "
     "Using fewer Fourier modes leaves the remaining modes and all fluxes unchanged.",
     ["inputs", "configurations"], "all parameters and optical depths, for each shape of problem and pair of switch settings",
     SAMPLED + "switches are compared on one or two atmospheres, to a loose tolerance.",
     [PD, CO, GE, AS, SU], [("dense, banded and differentiable branches", CO), ("differentiable branches", GE + ", " + AS), ("output selection", PD)],
     "decided by z3 for all real inputs in the stated ranges, for each listed problem shape and pair of settings", ["u(tau, phi)", "Fp(tau)", "Fm(tau)", "u0(tau)", "actinic fluxes"])
prop("C10", "Equivalent statements of one problem have the same solution",
     "Documented equivalent inputs give the same outputs: a scalar boundary value as a vector or a matrix with zero higher columns, a scalar reflectance as a constant function, zero reflectances, sources, boundary values or scaling fractions as omitted ones, "
     "trailing zero source coefficients, a number as a one-element array for one layer, superfluous reflectance modes or Legendre coefficients, integers as floats; "
     "the phase function of a layer without scattering and, without a beam, the beam's cosine are irrelevant.",
     ["inputs", "configurations"], "all parameters and optical depths, for each listed pair of forms and each shape of problem",
     SAMPLED + "few of the input forms are used, and never two forms of the same problem.",
     [PD, AS, CO, GE, SU], [("normalisation of the inputs", PD), ("boundary value and reflectance forms", CO), ("source forms", PD + ", " + SU)],
     "decided by z3 for all real inputs in the stated ranges, for each listed pair of forms", ["pydisort arguments and all outputs"])
prop("C11", "Output functions are evaluated point by point",
     "Every output function (intensity, zeroth mode, fluxes, actinic fluxes; ordinary or antiderivative; corrected or not) called with several optical depths and azimuths in any "
     "order, with repetitions and values on layer interfaces, returns at each point exactly what a call with that point alone returns, with the documented shape. "
     "The flags that ask for the convergence value or the layers' optical depths append outputs and change no other output; the appended optical depths are those of the problem; "
     "earlier calls do not influence later ones.",
     ["inputs", "histories"], "all optical depths in [0, bottom] in every combination of layers, all azimuths, all problem parameters, for each shape of problem",
     SAMPLED + "they are always sorted and mostly in one layer; flags are hardly combined.",
     [AS, PD, SU], [("layer index and broadcasting", AS), ("single-scattering corrections at several depths", PD + " u_corrected"), ("actinic flux functions", SU)],
     "every combination of layers is a path of its own; equality decided by z3 or exact normal forms", ["u, u0, Fp, Fm, generate_diff_act_flux_funcs"])
prop("C12", "Inputs outside the documented domain are refused, those inside it accepted",
     "The solver raises ValueError for optical depths that are not positive and strictly increasing, albedos outside [0,1), Legendre coefficients other than the first outside (-1,1), "
     "scaling fractions outside [0,1), a beam with cosine outside (0,1] or azimuth outside [0,2 pi) (when it has positive strength) or negative strength, odd or too small numbers of "
     "streams, inconsistent numbers of coefficients, modes or layers, boundary values of the wrong shape, a banded-solver threshold below three, or a beam coinciding with a computational angle "
     "when corrections are requested; it accepts everything else. Output functions refuse optical depths outside [0, bottom]; the helpers refuse bad knots, node counts, "
     "interpolation angles outside [-1,1] and boundary temperatures of the wrong number.",
     ["inputs", "configurations"], "every real parameter ranging over and beyond its interval, alone and jointly; all listed malformed shapes",
     "The suite has no test of input validation at all.",
     [PD, AS, SU], [("input checks", PD), ("range checks of the output functions", AS), ("helper checks", SU)],
     "z3 decides on every path that acceptance and validity coincide", ["pydisort", "u, u0, Fp, Fm", "interpolate", "subroutines"])
prop("C13", "The caller's arrays are never modified",
     "Neither the solver, nor any returned output function, nor any helper changes the contents of an array passed to it (albedos, optical depths, coefficients, boundary values, sources, lists of reflectances, evaluation points), "
     "results already returned are not changed by later calls, and overwriting returned intensities or fluxes does not change later results; solving twice from the same arguments gives the same solution.",
     ["inputs", "histories"], "all parameters, for each shape of problem, solver, correction and helper",
     "No test looks at its inputs after the call or reuses them in a way that depends on it.",
     [PD, AS, CO, GE, SU], [("copies of the inputs", PD), ("closures over internal arrays", AS), ("helpers", SU)],
     "the symbolic arrays alias as NumPy's do (views are views), so every write is seen; contents compared on every path", ["all arguments and returned arrays"])
prop("C14", "Single-scattering corrections are the documented ones and touch nothing else",
     "With corrections requested (a beam, scaling fractions and more coefficients than are used), the returned intensity is the uncorrected one plus the Nakajima-Tanaka corrections: a term that solves the single-scattering transfer equation of the beam for the difference "
     "between the full phase function divided by one minus the fraction and the truncated scaled one, layer by layer and continuous along the path, zero downward at the top and zero upward at the bottom, and for downward streams the documented small-angle term with its weighted mean albedo, "
     "fraction and residual phase function. Fluxes, zeroth mode and actinic fluxes are the same as without corrections.",
     ["inputs", "configurations"], "all parameters, every interior depth and both boundaries, all azimuths, for each shape of problem",
     SAMPLED + "corrected intensities are compared for single layers or layers with equal properties, which hid three defects of the multi-layer case.",
     [PD, SU], [("TMS_correction, IMS_correction, u_corrected", PD), ("scattering angle", SU + " calculate_nu")],
     "decided by z3 for all real inputs in the stated ranges, for each listed problem shape", ["u(tau, phi) with NT_cor"])
prop("C15", "Energy is conserved in every layer",
     "Inside every layer the derivative of the net flux (upward minus downward diffuse minus direct) with respect to optical depth equals one minus the albedo times the total actinic flux (diffuse upward and downward, and direct) "
     "minus 4 pi times the emission; the change of the net flux between two depths of a layer is the same in terms of the antiderivatives. A conservatively scattering layer without emission thus has constant net flux.",
     ["inputs", "configurations"], "all parameters and depths inside a layer, for each shape of problem",
     SAMPLED + "no test relates fluxes at different depths to what is absorbed.",
     [AS, GE, CO, SU], [("flux functions", AS), ("eigen-decomposition", GE), ("actinic fluxes", SU + " generate_diff_act_flux_funcs")],
     "the chain of three identities is decided by z3 for all real inputs in the stated ranges, for each listed problem shape", ["Fp(tau)", "Fm(tau)", "actinic fluxes"])
prop("C16", "Limiting cases have their known solutions",
     "An isothermal atmosphere over a surface of the same temperature, with the emission one minus its reflectance, and lit from above by the same emission, has that emission as its intensity everywhere and in all directions, "
     "whatever it scatters, and no net flux. An atmosphere that does not scatter has the intensity given by Beer's law, "
     "emission along the path, and emission and reflection (of the beam and of the downward light) at the surface, for every Fourier mode, with the fluxes that follow.",
     ["inputs", "configurations"], "all parameters, every interior depth and both boundaries, all azimuths, for each shape of problem",
     SAMPLED + "neither equilibrium nor a purely absorbing atmosphere with several layers and a reflecting surface is among them.",
     [AS, GE, CO, SU], [("thermal particular solution", SU + " _mathscr_v"), ("non-scattering shortcut", GE), ("emissivity", SU + " generate_emissivity_from_BDRF")],
     "decided by z3 and exact normal forms for all real inputs in the stated ranges and arbitrary reflectance functions, for each listed problem shape", ["u, u0, Fp, Fm, actinic fluxes"])
prop("C17", "However thick the layers, nothing overflows",
     "Every exponential the solver and the returned functions form has an exponent of at most zero, however thick the layers and wherever the optical depth lies, so that intensities, fluxes, zeroth mode, actinic fluxes and their antiderivatives "
     "are finite numbers everywhere, in optically thick atmospheres too, with and without corrections.",
     ["inputs", "configurations"], "layer thicknesses from 0.05 to 20000 and all other parameters in the stated ranges, every depth inside a layer and both boundaries, for each shape of problem",
     "The suite has a few problems with thickness up to a hundred; a wrong sign in a scaled exponent shows only beyond several hundred and in some of the closures.",
     [AS, CO, GE, PD], [("scaled exponents of the boundary value problem", CO), ("exponents of the evaluated solution", AS), ("corrections", PD)],
     "z3 decides for every exponent formed on every path that it cannot be positive", ["pydisort", "u, u0, Fp, Fm, actinic fluxes"])
prop("C18", "The intensity depends on azimuth as it should",
     "The intensity is even about the beam's azimuth and has period 2 pi, is independent of azimuth if only one Fourier mode is used, and changing the beam's azimuth rotates the field without changing it, "
     "nor the fluxes and the zeroth mode. Without a beam, or with the beam at the zenith, nothing depends on azimuth if the boundary values do not. "
     "All of this holds with the single-scattering corrections and for antiderivatives.",
     ["inputs"], "all azimuths and all parameters, for each shape of problem",
     SAMPLED + "the beam azimuth is nearly always the same and symmetric azimuths are not compared.",
     [AS, PD], [("Fourier sum", AS), ("scattering angle of the corrections", PD)],
     "decided by z3 and exact normal forms over symbolic azimuths", ["u(tau, phi)"])
prop("C19", "The convergence value measures the last Fourier term",
     "The convergence value returned with the intensity is the largest, over the requested optical depths, azimuths and all streams, of the absolute contribution of the last Fourier mode divided by the "
     "absolute intensity, wherever the intensity is not negligible.",
     ["inputs"], "all parameters, optical depths and azimuths with intensities of magnitude above 0.01, for each shape of problem",
     "The suite never looks at the convergence value.",
     [AS, PD], [("return_Fourier_error", AS)],
     "decided by z3; maximum and absolute value are exact symbolic functions", ["u(..., return_Fourier_error=True)"])

prop("C20", "Interpolation in the polar angle is exact where it should be",
     "Interpolating the intensity or the zeroth mode with respect to the cosine of the polar angle returns the values at the computational angles unchanged, reproduces any polynomial of degree below the number of nodes in each hemisphere "
     "(a different one above and below), uses only the values of the hemisphere of the requested angle, and returns for several angles, depths and azimuths in any order what single calls return, with the documented axes. "
     "The flags (antiderivative, convergence value, optical depths) pass through to the underlying function and keep their meaning.",
     ["inputs", "configurations"], "all values at the nodes, all angles in [-1, 1] other than zero, all depths and azimuths, for each number of nodes",
     "The suite interpolates in a few comparisons with stored output at fixed angles and to a loose tolerance; flags of the interpolated zeroth mode were never used.",
     [SU], [("interpolation in both hemispheres", SU + " interpolate")],
     "decided by z3 for all real inputs in the stated ranges, for each listed number of nodes", ["interpolate(u)(mu, tau, phi)", "interpolate(u0)(mu, tau)"])
prop("C21", "Quadrature, scattering-angle, differencing and storage helpers are exact",
     "Gauss-Legendre and Clenshaw-Curtis rules integrate polynomials up to degree 2N-1 and N-1 exactly on every interval, with ascending, symmetric nodes inside it and positive weights; the cosine of the scattering angle is the product of the two "
     "directions on all axes; the finite-difference matrix differentiates quadratic functions exactly at every grid point including the ends; the banded form stores entry (i, j) where the banded solver expects it.",
     ["inputs", "configurations"], "all intervals, angles and matrix entries, for each listed number of nodes, points and bandwidth",
     "The helpers are only exercised through the solver with their default interval, or not at all (Clenshaw-Curtis weights, one-sided differences, unequal bandwidths).",
     [SU], [("quadrature rules", SU + " Gauss_Legendre_quad, Clenshaw_Curtis_quad"), ("finite differences", SU + " generate_FD_mat"), ("banded form", SU + " to_diag_ordered_form")],
     "decided by z3 over symbolic intervals, angles and entries with exact algebraic nodes, for each listed size", ["subroutines"])
prop("C22", "Source, boundary and reflectance helpers give what the solver expects",
     "The Planck function and its integral over a wavenumber interval are evaluated point by point and vanish at zero temperature; the source coefficients generated from temperatures are linear in each layer and meet the emission of the temperatures at "
     "its top and bottom; the affine transformation of polynomials keeps their values; emissivity plus directional reflectivity is one; and reflectances kept in a cache, with or without a fixed beam, give the same solution again and again.",
     ["inputs", "configurations"], "all temperatures, wavenumbers, optical depths, coefficients and reflectance functions, for each listed number of layers, degree, node and mode",
     "The suite uses generate_s_poly_coeffs in a few comparisons and never the cache, the emissivity or the affine transformation by themselves.",
     [SU, CO], [("thermal source", SU + " generate_s_poly_coeffs"), ("affine transformation", SU + " affine_transform_poly_coeffs"), ("cache", SU + " cache_BDRF_Fourier_modes")],
     "decided by z3 for all real inputs in the stated ranges and arbitrary reflectance functions", ["subroutines", "pydisort with cached reflectances"])
prop("C23", "Solutions do not depend on what happened before",
     "The solver's results depend on its arguments alone: a problem solved after any other problems have been solved and evaluated in the same process (with other parameters, with all but one parameter equal, "
     "or of other size) has the same solution as in a fresh process, functions returned earlier keep their values when further problems are solved or evaluated, and also when the caller overwrites or reuses the arrays it had passed.",
     ["histories", "inputs"], "all parameters of both problems and all depths of evaluation, for each pair of shapes and each argument in which they may differ",
     "The suite solves each problem once and compares it with stored output; the few repeated solutions differ in everything.",
     [PD, AS, CO, GE, SU], [("solver", PD), ("no state kept between calls", GE), ("output functions keep copies", PD + " tau_arr, f_arr")],
     "decided by z3 and exact normal forms: the outputs of the package after a history of symbolic calls equal those of an untouched copy", ["all outputs of pydisort"])

prop("C24", "Doubtful inputs are corrected or pointed out, and only those",
     "The solver warns exactly if the zeroth Legendre coefficient of a scattering layer is not 1 (and then uses 1 in its place), if a delta-scaled albedo is within 1e-6 of 1, if a delta-scaled coefficient in use exceeds 0.95 in magnitude, or if more than 64 Fourier modes are used for the intensity, and "
     "warns of thermal source polynomials with more than 10 coefficients; caching reflectances warns exactly if no beam is given to cache for. Ordinary problems are solved and evaluated without warnings.",
     ["inputs", "configurations"], "all albedos, coefficients and scaling fractions on both sides of the thresholds, for each shape of problem",
     "No test looks at warnings or gives a zeroth coefficient other than 1.",
     [PD, SU], [("warnings and the corrected coefficient", PD), ("caching", SU + " cache_BDRF_Fourier_modes")],
     "z3 decides on every path that the warning and the condition coincide", ["warnings"])

prop("C25", "Rounding errors stay small",
     "For every problem in the documented domain, including optically thick, nearly conservative and strongly forward-scattering ones with many streams, the values computed in double precision "
     "differ from the exact solution of the discrete-ordinate equations by a small relative error.",
     ["inputs"], "all problems in the documented domain",
     SAMPLED + "rounding is not analysed.", [PD, CO, GE], [("linear systems", CO), ("eigen-decomposition", GE)], "", ["u(tau, phi)"])
NA = [(P.pop(), "The error depends on the floating-point arithmetic inside LAPACK (eigen-decomposition, banded LU), which is compiled Fortran outside the repository and cannot be encoded; "
                "the encoding of the package itself is over the reals.  Absence of growing exponentials, the design decision behind it, is decided by C17.")]


def main():
    out, checks = [], []
    for p in P:
        if not os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
            continue
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        out.append(q)
        checks.append(dict(property=p["id"], quick_cmd="python3-vt -m vp.run %s" % p["id"], thorough_cmd="python3-vt -m vp.run %s --tier thorough" % p["id"],
                           technique="symbolic execution of the package source, obligations decided by z3, counterexamples replayed on the real code",
                           level="model_checking",
                           level_note="Bounded: " + p["_assure"] + "; real-number semantics (rounding is outside the claim); library calls are contracts (see DESIGN.md)."))
    for p, why in NA:
        out.append({k: v for k, v in p.items() if not k.startswith("_")})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for q in out:
            fh.write(json.dumps(q) + "\n")
    man = dict(version=1, setup_cmd="true", checks=checks,
               not_applicable=[dict(property=p["id"], reason=why) for p, why in NA],
               notes="No hooks in /repo. All checks run under python3-vt; the replay side runs the real package under /opt/venv/bin/python.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
