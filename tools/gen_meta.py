"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/elli/"
P = []


def prop(id, title, statement, qtext, tests, files, mech, observe, level_note,
         over=("inputs", "configurations"), state=(), technique=None):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier={"over": list(over), "text": qtext},
        why_tests_cant=tests,
        anchors={
            "files": [S + f for f in files],
            "state": [dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            "mechanism": [dict(name=a, where=S + b) for a, b in mech],
            "observe_at": list(observe), "hook_needed": None,
        },
    ), technique, level_note))


prop("C01", "Isotropic multilayers are solved exactly by every solver",
     "For any stack of isotropic media the reflection and transmission Jones matrices returned by the 2x2 "
     "solver and by the 4x4 solver with every propagator (scipy, torch, eigenvalue) equal the plane-wave "
     "solution of Maxwell's equations (Fresnel/Parratt), are diagonal, and agree with each other within "
     "double-precision conditioning. This holds for any number of layers, any thickness, angle of incidence, "
     "absorbing media, metals, total internal reflection and every route an experiment can be evaluated by.",
     "all isotropic stacks, wavelengths, angles, solvers and propagators",
     "tests compare the solvers with each other on a few fixed structures; a common error or one that needs "
     "TIR, metals, opaque layers, mixed stacks or unusual wavelength forms is not seen",
     ["solver2x2.py", "solver4x4.py", "structure.py", "experiment.py"],
     [("Fresnel coefficients and characteristic matrices", "solver2x2.py"),
      ("Berreman delta matrix, propagators, half-space transition matrices", "solver4x4.py")],
     ["Result.jones_matrix_r", "Result.jones_matrix_t"],
     "random and hostile stacks judged online against an independent Parratt recursion; evanescent growth "
     "beyond e^20 is outside double precision for the 4x4 method and not judged")
prop("C02", "Anisotropic multilayers satisfy Maxwell's boundary conditions",
     "For any stack of uniaxial, biaxial, arbitrarily rotated, twisted or user-defined (also gyrotropic) media "
     "between an isotropic incidence medium and an isotropic or anisotropic exit medium, the full reflection "
     "Jones matrix (and, for an isotropic exit, the transmission Jones matrix) returned by the 4x4 solver "
     "equals the solution of the electromagnetic boundary-value problem, for every propagator.",
     "all tensors, orientations, thicknesses, angles, wavelengths and propagators",
     "tests cover a few textbook uniaxial crystals and twisted nematic cells in high-symmetry orientation",
     ["solver4x4.py", "materials.py", "structure.py"],
     [("4x4 delta matrix", "solver4x4.py"), ("selection of outgoing modes in the exit medium", "solver4x4.py")],
     ["Result.jones_matrix_r", "Result.jones_matrix_t"],
     "each wavelength compared with a multi-precision boundary-value solution; transmission into an "
     "anisotropic exit is not judged (no documented normalisation)")
prop("C03", "Energy is conserved and passive structures never amplify",
     "For every incident polarization, lossless structures give R + T = 1 and passive absorbing structures "
     "give 0 <= R, 0 <= T and R + T <= 1, with R and T taken from the reflectance and transmittance matrices "
     "(linear and circular) of either solver, transparent or absorbing exit media included. Under total "
     "internal reflection T is 0, for a bare interface into any isotropic medium R + T = 1, and without "
     "cross-polarisation R_matrix/T_matrix columns, R, T and their circular counterparts state one power balance.",
     "all passive structures, polarizations, angles and wavelengths",
     "tests check R of a few samples; conservation over all incident polarizations is never checked",
     ["result.py", "solver2x2.py", "solver4x4.py"],
     [("power correction of the transmittance", "solver4x4.py"), ("R, T, Rc, Tc matrices", "result.py")],
     ["Result.R_matrix", "Result.T_matrix", "Result.Rc_matrix", "Result.Tc_matrix", "Result.R", "Result.T"],
     "conservation law monitored on random lossless and lossy stacks, for all polarizations through the "
     "eigenvalues of the power operator; incidence media are transparent")
prop("C04", "Physically identical structures give identical results",
     "Rewriting a structure without changing its physics never changes a result: splitting a layer, inserting "
     "a layer of zero thickness or of the neighbouring medium, expanding a repeated-layers block (with its "
     "additional layers before and after) into a plain list, replacing an inhomogeneous layer by its mid-slice "
     "homogeneous layers, describing an isotropic medium as uniaxial or biaxial, or sharing versus duplicating "
     "objects. The linearised propagator converges to the exact one as layers are subdivided.",
     "all structures and rewrites",
     "tests build structures one way only",
     ["structure.py", "solver4x4.py", "solver2x2.py", "materials.py"],
     [("RepeatedLayers.get_permittivity_profile", "structure.py"),
      ("InhomogeneousLayer slices", "structure.py"), ("PropagatorLinear", "solver4x4.py")],
     ["Result.jones_matrix_r", "Structure.get_permittivity_profile"],
     "metamorphic pairs executed and compared; the rewrite list is finite, the structures are random")
prop("C05", "Rotations are proper and results obey spatial symmetries",
     "Rotation matrices from Euler angles, axis-angle and rotation vectors are orthogonal with determinant 1, "
     "mean the documented right-handed rotation, compose and invert as documented, and a rotated material's "
     "permittivity tensor is R eps R^T. Simulated results obey the symmetries this implies: azimuthal rotation by "
     "180 degrees of the whole sample transposes reflection reciprocally, mirroring the azimuth flips only the sign of "
     "the cross-polarised terms, and at normal incidence rotating the sample rotates the Jones matrix.",
     "all angles, axes, tensors and structures",
     "tests check one or two fixed rotations",
     ["utils.py", "materials.py", "solver4x4.py", "structure.py"],
     [("rotation_euler, rotation_v, rotation_v_theta", "utils.py"), ("set_rotation", "materials.py")],
     ["elli.rotation_*", "Material.get_tensor", "Result.jones_matrix_r"],
     "group laws and independent vector formulas on random rotations, symmetry relations on random structures")
prop("C06", "Every representation of a result describes the same Jones matrix",
     "rho, psi, delta (reduced and as matrices, reflection and transmission), the Mueller matrix, the circular "
     "Jones matrices and R/T/Rc/Tc of a result are consistent functions of its Jones matrices under the "
     "documented conventions (rho = tan(psi) exp(-i delta), Stokes S3 = 2 Im(Ex Ey*), right minus left circular), for any incident polarization. Named access with "
     "attributes or get() (psi_pp, r_sp, T_ss, r_LR, mueller_matrix_23, Greek aliases, ...) returns exactly the "
     "corresponding matrix element, and unknown names raise.",
     "all Jones matrices, incident polarizations and names",
     "tests read psi and delta of a few isotropic samples; cross-polarised and circular elements are hardly read",
     ["result.py"],
     [("Result properties and __getattr__", "result.py")],
     ["Result.*"],
     "every public representation recomputed from the Jones matrices by elementwise formulas (Stokes vectors "
     "of propagated fields for the Mueller matrix)")
prop("C07", "Delta is reported in the selected range, unchanged modulo 360",
     "For every valid delta range, delta, delta_t and the delta matrices of a result and converted measurement "
     "data lie inside the range and are congruent modulo 360 degrees to the phase of rho (for 0..180: equal up "
     "to the sign, which that range does not carry); converting back and forth loses nothing. Psi, rho outside 0..180 and "
     "all other quantities do not depend on the range, and invalid ranges are rejected.",
     "all delta values and all valid ranges",
     "tests check only inequalities for four ranges on one sample",
     ["utils.py", "result.py"],
     [("DeltaRange", "utils.py"), ("convert_delta_range", "utils.py"), ("as_delta_range", "result.py")],
     ["Result.delta", "elli.utils.convert_delta_range"],
     "all 361 full ranges and 0..180 enumerated against random and boundary phases")
prop("C08", "Result lists stack and average their results elementwise",
     "A ResultList returns for every quantity the stacked values of its results in order, and its mean equals "
     "the arithmetic mean over the results (never over wavelengths) for any number of results and wavelengths, "
     "including one. Appending, nesting access by name, copying and pickling behave the same on the list as on the results.",
     "all list lengths, wavelength counts and quantities",
     "one test with three identical results",
     ["result.py"],
     [("ResultList", "result.py"), ("AveragedResultList", "result.py")],
     ["ResultList.<quantity>", "ResultList.mean.<quantity>"],
     "all combinations of small list and wavelength counts with random results")
prop("C09", "Incident polarization given as Jones or Stokes vector is equivalent",
     "A Jones vector and the Stokes vector of the same polarization give the same reduced rho, psi and delta, the "
     "converted vectors agree with the documented conventions for every state including horizontal, vertical and "
     "circular light and rounding next to them, the default is diagonal polarization, a global phase or "
     "scale changes nothing, and partially polarized light contributes its polarized part.",
     "all polarization states",
     "tests use the default polarization only",
     ["experiment.py", "result.py"],
     [("Experiment.set_vector", "experiment.py")],
     ["Experiment.jones_vector", "Experiment.stokes_vector", "Result.rho"],
     "polarization states over the whole Poincare sphere, poles and rounding neighbours included")
prop("C10", "Evaluation is pure: no hidden state, no changed inputs",
     "Evaluating a structure never changes its layers, materials, dispersions, parameters, wavelength arrays or "
     "the numpy error state, gives bit-identical results when repeated, in any order, interleaved with other evaluations or from "
     "several threads, and reflects every later change made through the setters (thickness, material, "
     "dispersion, rotation, fraction, angle, wavelengths, structure) immediately. Results already returned do not "
     "change when the experiment's inputs are changed afterwards, except for the incident vector and delta range they are read with.",
     "all operation histories on shared objects and thread interleavings",
     "tests evaluate fresh objects once",
     ["structure.py", "materials.py", "experiment.py", "solver.py", "dispersions/base_dispersion.py"],
     [("Solver base class snapshots the experiment", "solver.py"),
      ("setters", "structure.py"), ("setters", "materials.py")],
     ["object graph before/after", "Result", "numpy.geterr()"],
     "operation histories on shared object graphs recorded with deep snapshots, replayed against fresh objects "
     "and from concurrent threads with switch-interval stress",
     over=("histories", "schedules", "inputs"))
prop("C11", "Wavelengths are evaluated pointwise, whatever their container",
     "For every dispersion, material, layer and structure the value at a wavelength depends only on that "
     "wavelength: scalars, lists, tuples, integer or float arrays (any integer width), permuted, repeated, split or descending "
     "grids give the same values point by point, in the order given, and with the documented shapes.",
     "all dispersions, materials, structures and wavelength containers",
     "tests use float arrays from linspace",
     ["dispersions/base_dispersion.py", "materials.py", "experiment.py", "structure.py"],
     [("get_dielectric, get_refractive_index", "dispersions/base_dispersion.py"),
      ("SingleMaterial.get_tensor", "materials.py"), ("Experiment.set_lbda", "experiment.py")],
     ["get_dielectric", "get_tensor", "Result"],
     "metamorphic comparison over containers, orders and partitions for every public dispersion and material class")
prop("C12", "Material tensors place each dispersion on its axis",
     "An isotropic, uniaxial or biaxial material returns for every wavelength the diagonal tensor of its "
     "dispersions' dielectric functions with the ordinary/extraordinary (x, y, z) order as documented, the rotated tensor "
     "is R diag R^T (symmetric, same trace and eigenvalues), later calls to the setters replace earlier ones "
     "completely, and the refractive index tensor squares to the permittivity on the diagonal.",
     "all dispersions, rotations and setter histories",
     "tests compare a few constant materials",
     ["materials.py"],
     [("SingleMaterial.get_tensor", "materials.py")],
     ["Material.get_tensor", "Material.get_refractive_index"],
     "random materials and setter histories against an independent tensor model",
     over=("inputs", "histories"))
prop("C13", "Effective medium mixtures satisfy their defining equations",
     "VCA, Looyenga, Maxwell-Garnett and Bruggeman mixtures satisfy their documented defining equation for every pair "
     "of constituents, return host and guest at fractions 0 and 1, are independent of the order where the theory "
     "is symmetric, stay within the Wiener bounds for lossless and passive for absorbing constituents, and "
     "nest; lossless constituents of any sign give the limit of vanishing absorption. Layers with varying mixture use the profile function at the middle of each slice, and fractions outside 0..1 are rejected.",
     "all constituent permittivities, fractions, profiles and nestings",
     "tests compare a few fixed fractions",
     ["materials.py", "structure.py"],
     [("get_tensor_fraction of each mixture", "materials.py"), ("VaryingMixtureLayer", "structure.py")],
     ["MixtureMaterial.get_tensor", "VaryingMixtureLayer.get_permittivity_profile"],
     "residuals of the defining equations on random constituents; mixtures of diagonal tensors")
prop("C14", "Dispersion models compute their documented formulas",
     "Every dispersion model returns the value of its documented formula for every parameter set, any number of "
     "oscillators and every wavelength, with the documented units, defaults and parameter order (positional, keyword and factory "
     "construction agree); tables interpolate and refuse wavelengths outside their range; epsilon and refractive index "
     "views, data frames and conjugation agree with each other.",
     "all models, parameters and wavelengths",
     "tests compare one parameter set per model with stored values",
     ["dispersions/" + f for f in ("cauchy.py", "cauchy_custom.py", "cauchy_urbach.py", "cody_lorentz.py",
                                   "drude_energy.py", "drude_resistivity.py", "gaussian.py", "lorentz_energy.py",
                                   "lorentz_lambda.py", "poles.py", "polynomial.py", "sellmeier.py",
                                   "sellmeier_custom.py", "tanguy.py", "tauc_lorentz.py", "table_index.py",
                                   "table_epsilon.py", "pseudo_dielectric.py", "base_dispersion.py")],
     [("dielectric_function / refractive_index of each model", "dispersions/")],
     ["get_dielectric", "get_refractive_index", "get_*_df"],
     "an independent implementation of each formula (multi-precision where special functions occur)")
prop("C15", "Oscillator models and transforms obey Kramers-Kronig relations",
     "For each causal oscillator model (Tauc-Lorentz, Cody-Lorentz, Lorentz, Gaussian, Tanguy) the real part of the "
     "permittivity is the Kramers-Kronig transform of its imaginary part up to a constant, the imaginary part is "
     "never negative for physical parameters and vanishes below the gap where documented, and the numerical transform functions reproduce "
     "known transform pairs, are linear, mutually inverse, and agree between their wavelength, energy and "
     "reciprocal forms.",
     "all physical parameters and smooth spectra",
     "tests transform one stored spectrum",
     ["kkr/kkr.py", "dispersions/tauc_lorentz.py", "dispersions/cody_lorentz.py", "dispersions/gaussian.py",
      "dispersions/lorentz_energy.py", "dispersions/tanguy.py"],
     [("im2re, re2im, im2re_reciprocal, re2im_reciprocal", "kkr/kkr.py")],
     ["get_dielectric", "elli.kkr.*"],
     "principal-value quadrature of the observed imaginary part; analytic transform pairs for the transform functions")
prop("C16", "Adding dispersions is pure, associative and commutative",
     "The sum of dispersions (operator, sum class, in-place or chained, with numbers on either side) has the sum of the dielectric "
     "functions (of refractive indices for index models) of its terms, independent of grouping and order, never "
     "changes any operand, stays flat, and mixing dielectric and index models raises unless converted explicitly.",
     "all terms, groupings and histories of additions",
     "tests add up to three equal models",
     ["dispersions/base_dispersion.py", "dispersions/table_index.py", "dispersions/table_epsilon.py"],
     [("DispersionSum, IndexDispersionSum, __add__", "dispersions/base_dispersion.py")],
     ["get_dielectric", "operand values before/after"],
     "random expression trees over shared operands, monitored with value snapshots of every operand",
     over=("inputs", "histories"))
prop("C17", "Formula dispersions evaluate the written formula",
     "A formula dispersion equals the arithmetic value of its formula string for every expression of the grammar "
     "(precedence, powers, functions, constants, sums over repeated parameters), with the wavelength axis converted to the "
     "declared length or energy unit, for scalar or array wavelengths; malformed formulas, unknown names, wrong "
     "representation and inconsistent parameters raise.",
     "all formulas of the grammar, parameters, units and wavelengths",
     "tests evaluate three formulas",
     ["dispersions/formula.py", "formula_parser/parser.py", "formula_parser/dispersion_function_grammar.lark", "units.py"],
     [("grammar and FormulaTransformer", "formula_parser/"), ("unit conversion", "dispersions/formula.py")],
     ["Formula.get_dielectric", "FormulaIndex.get_refractive_index"],
     "random expression trees printed to the grammar and evaluated independently", over=("inputs", "programs"))
prop("C18", "Instrument files are imported without altering the data",
     "Reading a Woollam (WVASE and CompleteEASE), SpectraRay (psi/delta, Mueller matrix, dispersion table) or "
     "Accurion file returns every measured value at its own angle and wavelength in nm, for any number of angles and rows, row order, "
     "units, encodings, extra record types and header text; delta stays equal modulo 360, rho readers agree with "
     "psi/delta readers, and unreadable formats raise instead of returning wrong data.",
     "all well-formed files of each format",
     "tests read one example file per format",
     ["importer/woollam.py", "importer/spectraray.py", "importer/accurion.py", "dispersions/table_spectraray.py", "utils.py"],
     [("read_*", "importer/")],
     ["returned DataFrame"],
     "random measurements written in each format and compared value by value after reading")
prop("C19", "NeXus measurements and materials are imported faithfully",
     "Reading psi/delta from NeXus files of either definition returns every value at its angle and wavelength (nm), "
     "and reading materials returns isotropic, uniaxial or biaxial materials whose tensors equal the stored "
     "formulas and tables per axis, with all terms of a dispersion added, independent of the file afterwards; unsupported content raises.",
     "all files of the supported definitions",
     "tests read one example file per definition",
     ["importer/nexus.py"],
     [("read_nexus_psi_delta, read_nexus_rho, read_nexus_materials", "importer/nexus.py")],
     ["returned DataFrame", "Material.get_tensor"],
     "random HDF5 files written with h5py and compared after reading")
prop("C20", "Database entries load the stored optical constants",
     "For every catalogue entry of the refractiveindex.info database the loaded dispersion and material reproduce the stored tables "
     "(n and k, in nm) or formula 1-5, also when several data blocks are combined; the catalogue lists every page once with "
     "correct author, year and range, searching returns exactly the matching entries, and unknown entries or unimplemented "
     "formats raise.",
     "all database contents and queries",
     "the database is absent here, its tests do not even run",
     ["database/refractive_index_info.py"],
     [("RII catalogue, search, get_dispersion", "database/refractive_index_info.py")],
     ["RII.catalog", "RII.search", "RII.get_dispersion"],
     "a synthetic random database in the layout of the original one, loaded by the real code from a copy of the working tree")
prop("C21", "Parameter history records and restores every state",
     "A ParamsHist holds, after any sequence of tracked changes, commits, reverts, pops and length changes, exactly the parameter sets a list of "
     "snapshots would: history never exceeds its maximum, older states are dropped first, pop restores the previous "
     "state completely, revert keeps the history, and stored states never change when current or foreign parameters change.",
     "all histories of operations",
     "there are no tests of the parameter history",
     ["fitting/params_hist.py"],
     [("ParamsHist", "fitting/params_hist.py")],
     ["values, bounds, vary flags of current and stored parameters"],
     "random operation histories compared step by step with an independent snapshot-list model",
     over=("histories",))
prop("C22", "Fitting compares the model with the data it was given",
     "The residual of a psi/delta or Mueller-matrix fit is zero exactly for the parameters that generated the data and equals data minus "
     "model otherwise; fitting noise-free data from a nearby start recovers the generating parameters, leaves the "
     "given data and start parameters unchanged, and model data, csv export, plots, undo, redo and reset report the state they name.",
     "all models, data, parameters and interaction histories",
     "there are no tests of fitting",
     ["fitting/decorator.py", "fitting/decorator_psi_delta.py", "fitting/decorator_mmatrix.py", "plot/mueller_matrix.py"],
     [("FitRho", "fitting/decorator_psi_delta.py"), ("FitMuellerMatrix", "fitting/decorator_mmatrix.py")],
     ["fit_function", "fit", "get_model_data", "fig.data", "to_csv"],
     "synthetic experiments with known parameters, interaction histories driven through the public methods and widgets",
     over=("inputs", "histories"))
prop("C23", "Unit and quantity conversions are exact inverses",
     "Conversions between wavelength, energy, frequency and wavenumber satisfy the physical relations with CODATA constants "
     "and are mutual inverses; calc_rho, the pseudo dielectric function, the isotropic Mueller matrix from psi/delta "
     "and the quarter-wave thickness equal their definitions and agree with simulated results for bulk samples (the pseudo "
     "dielectric function of a bulk sample is its dielectric function).",
     "all values, angles and samples",
     "tests convert a few values",
     ["utils.py", "dispersions/pseudo_dielectric.py"],
     [("conversion_*, calc_rho, calc_pseudo_diel, convert_psi_delta_to_isotropic_mueller_matrix, get_qwp_thickness", "utils.py")],
     ["return values"],
     "round trips, independent formulas and inversion of simulated bulk measurements")
prop("C24", "Invalid input is rejected before it can produce numbers",
     "Negative thickness, fractions outside 0..1, fewer than one repetition or division, negative extra layers, objects of "
     "the wrong kind as material, dispersion, layer or layer list, unknown, surplus, duplicate or missing dispersion parameters, "
     "unequal or empty tables, invalid solver, propagator backend, representation or query values raise a documented exception in constructors and "
     "setters alike, and a rejected setter call leaves the object as it was.",
     "all invalid values in every argument position",
     "tests try one value for some of the checks",
     ["structure.py", "materials.py", "dispersions/base_dispersion.py", "experiment.py", "solver4x4.py"],
     [("validation in setters and constructors", "structure.py")],
     ["raised exception", "object state afterwards"],
     "every documented guard with random invalid values, followed by a comparison of the object's behaviour")
prop("C25", "Drawings and plots show exactly the structure and the data",
     "The permittivity and index profiles of a structure list the front half-space, every slice of every layer in order and the "
     "back half-space with their thicknesses, the index along v being sqrt(v.eps.v); draw_structure shows every slice at its depth "
     "with its index in both methods. plot_mmatrix draws every column of every frame once, against its own wavelengths, at its "
     "place, under its name, and changes no frame.",
     "any structure, any number of frames and columns",
     "tests do not draw structures and compare no drawn values",
     ["plot/structure.py", "plot/mueller_matrix.py"],
     [("draw_structure, get_index_profile, get_permittivity_profile", "plot/structure.py"), ("plot_mmatrix", "plot/mueller_matrix.py")],
     ["figures and axes objects returned"],
     "the artists of the returned figures are read back and compared with the structure's own slices and the frames")


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "mon/props")) if f[0] == "c" and len(f) == 6}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    py = "/opt/venv/bin/python"
    checks, na = [], []
    for p, tech, note in P:
        if p["id"] in have:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"{py} check.py {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough {py} check.py {p['id']}",
                "technique": tech or "runtime monitoring: online oracle over observed executions of randomised and hostile workloads",
                "level": "exploration", "level_note": note,
            })
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    man = {
        "version": 1, "setup_cmd": f"{py} tools/selfcheck.py",
        "checks": checks, "not_applicable": na,
        "notes": "Pure-Python code: the monitors import the working tree of /repo directly, no build and no hooks are needed.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(checks), "checks;", [x["property"] for x in na])
    assert all(len(p["title"]) <= 80 for p, _, _ in P), [p["id"] for p, _, _ in P if len(p["title"]) > 80]


if __name__ == "__main__":
    sys.exit(main())
