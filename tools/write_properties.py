"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib

FW = "src/hyperelastic/frameworks/"
SP = "src/hyperelastic/spaces/"
MO = "src/hyperelastic/models/"
MA = "src/hyperelastic/math/_voigt.py"
LA = "src/hyperelastic/lab/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


DOM = ("Deformation gradients with det F > 0 and principal stretches roughly within 0.2..5 (rest state, rigid rotations, "
       "repeated and nearly repeated stretches, simple shear, axis-aligned and rotated states included)")

prop("C01", "Stress is the energy derivative in the full deformation space",
     "For every isotropic strain energy given through the invariants, principal-stretches or generalized-invariants framework, "
     "by a built-in or a user-written model, a deformation-space material returns as first Piola-Kirchhoff stress the derivative "
     "of that energy with respect to the deformation gradient, to round-off. This includes energies that depend on the third "
     "invariant or on any subset of the invariants, and any admissible material parameters (zero and negative ones included).",
     ["inputs", "configurations"], DOM + "; all frameworks, built-in models and random user energies in (I1,I2,I3) and (l1,l2,l3).",
     "The tests run a few incompressible/FE load paths with I3-independent energies and mostly assert only that FElupe converges; "
     "no test compares a stress with an energy derivative, so wrong terms that leave Newton convergent pass.",
     [FW + "_invariants.py", FW + "_stretches.py", FW + "_generalized.py", SP + "_deformation.py", MO],
     [("chain rule dW/dC over the invariants", FW + "_invariants.py: Invariants.gradient"),
      ("spectral sum of dW/dlambda over eigenbases", FW + "_stretches.py: Stretches.gradient"),
      ("chain rule over generalized invariants", MO + "stretches/_generalized_invariants.py: GeneralizedInvariantsModel.gradient"),
      ("P = F S", SP + "_space.py: Space.piola")],
     ["return value of DeformationSpace.gradient([F, statevars])[0]"])

prop("C02", "Elasticity is the exact stress derivative in the full deformation space",
     "The elasticity tensor returned by a deformation-space material equals, to round-off, the derivative of its first "
     "Piola-Kirchhoff stress with respect to the deformation gradient (geometric term included), for every energy, framework and model. "
     "In particular every pure and mixed second derivative that a user's model supplies, including those of the third invariant, "
     "contributes exactly its chain-rule term.",
     ["inputs", "configurations"], DOM + "; all frameworks, built-in models and random user energies with every pattern of second derivatives.",
     "The tests only exercise models without I3-dependence and judge the tangent by FE convergence with a loose tolerance; a slightly "
     "inconsistent tangent still converges.",
     [FW + "_invariants.py", FW + "_stretches.py", MO + "stretches/_generalized_invariants.py", SP + "_deformation.py", SP + "_space.py"],
     [("second-derivative assembly over the invariants", FW + "_invariants.py: Invariants.hessian"),
      ("spectral tangent", FW + "_stretches.py: Stretches.hessian"),
      ("second derivatives over generalized invariants", MO + "stretches/_generalized_invariants.py: GeneralizedInvariantsModel.hessian"),
      ("A = F F C + delta S", SP + "_space.py: Space.piola")],
     ["return value of DeformationSpace.hessian([F, statevars])[0]"])

prop("C03", "Distortional space responds only to the volume-preserving deformation",
     "A distortional-space material behaves as the energy evaluated at the unimodular part of the deformation: its stress and elasticity are the first and "
     "second derivatives of psi(J^(-1/3) F), its Cauchy stress is deviatoric, and superposing a pure volume change scales "
     "the first Piola-Kirchhoff stress by the inverse of the stretch factor and otherwise changes nothing.",
     ["inputs", "configurations"], DOM + "; volume ratios 0.1..10; all frameworks and models.",
     "The FE tests use a nearly-incompressible solid (J near 1), so errors in the J-scaling and in the projection of the tangent "
     "are invisible; no test compares values.",
     [SP + "_distortional.py", SP + "_space.py"],
     [("unimodular scaling and deviatoric projection", SP + "_distortional.py: Distortional.gradient"),
      ("projected elasticity", SP + "_distortional.py: Distortional.hessian")],
     ["return values of DistortionalSpace.gradient / .hessian"])

prop("C04", "Dilatational space responds only to the volume change",
     "A dilatational-space material behaves as the energy evaluated at the purely volumetric part of the deformation: its stress and elasticity are the first "
     "and second derivatives of psi(J^(1/3) 1), and its Cauchy stress is spherical and depends on the deformation only through the volume ratio.",
     ["inputs", "configurations"], DOM + "; volume ratios 0.1..10; all frameworks and models.",
     "The only test uses a Neo-Hookean energy, whose derivative is constant and hides the deformation passed to the model.",
     [SP + "_dilatational.py", SP + "_space.py"],
     [("volumetric part and spherical projection", SP + "_dilatational.py: Dilatational.gradient"),
      ("volumetric elasticity", SP + "_dilatational.py: Dilatational.hessian")],
     ["return values of DilatationalSpace.gradient / .hessian"])

prop("C05", "Response is frame-indifferent and isotropic",
     "For every material in every space, rotating the deformed body rotates the stress and elasticity with it (P(QF) = Q P(F), and both force legs of "
     "the elasticity rotate), and rotating the undeformed body before deforming it only rotates the material legs (P(FQ) = P(F) Q). "
     "A rigidly rotated rest state gives the rotated rest-state response.",
     ["inputs", "configurations"], DOM + "; arbitrary proper rotations, including 90 and 180 degree ones and axis permutations; all spaces, frameworks, models.",
     "Tests use axis-aligned load cases and a single cube orientation; no test applies a rotation.",
     [SP, FW, MA],
     [("dependence on C only", SP + "_deformation.py, _distortional.py, _dilatational.py: gradient"),
      ("isotropic functions of C", FW + "_invariants.py, _stretches.py"),
      ("consistent Voigt index maps", MA)],
     ["gradient/hessian of all spaces on F, QF, FQ"])

prop("C06", "Force/area configurations are exact Piola transforms of one response",
     "For each choice of force and area configuration, the returned stress is the same physical stress pushed forward or pulled back on the chosen legs "
     "(first and second Piola-Kirchhoff, Cauchy, and the mixed second form), and the elasticity is that of the first Piola-Kirchhoff stress with its "
     "force and area legs transformed alike (division by J for deformed area). An unfinalized space returns the second Piola-Kirchhoff stress and the material elasticity "
     "(no geometric term) in reduced Voigt storage. This holds for every space, model and batch, including models whose derivatives are constants.",
     ["inputs", "configurations"], DOM + "; force in {None, 0}, area in {None, 0}, finalize in {True, False}, parallel in {True, False}, all spaces and models.",
     "test_finalize only runs the combinations on one Yeoh model with one load ramp of zero displacement and asserts nothing about the values.",
     [SP + "_space.py"],
     [("stress and elasticity push-forward", SP + "_space.py: Space.piola")],
     ["gradient/hessian of spaces built with different force/area/finalize"],
     [("force, area, finalize", "chosen configurations", SP + "_space.py: Space.__init__")])

prop("C07", "Equivalent formulations of one energy give the same response",
     "One strain energy expressed in different ways - polynomial in the invariants, generalized invariants of the deformation measure with exponent 2, "
     "Ogden terms, a user-written principal-stretch model, an automatic-differentiation model, or the invariants written as functions of the stretches - gives the same stress and elasticity in every space. "
     "In particular Ogden with exponent 2 or -2 equals Neo-Hooke or its reciprocal counterpart, and one Ogden term equals the first generalized invariant with that exponent.",
     ["inputs", "configurations"], DOM + "; random parameters; all spaces.",
     "One test compares Torch and hand-coded Yeoh on one uniaxial path; no other equivalence is tested.",
     [FW, MO],
     [("invariants route", FW + "_invariants.py"), ("spectral route", FW + "_stretches.py"),
      ("generalized route", MO + "stretches/_generalized_invariants.py"), ("autodiff route", MO + "invariants/_torch.py")],
     ["gradient/hessian of pairs of materials"])

prop("C08", "Response is finite and continuous where principal stretches coincide",
     "As two or three principal stretches approach each other, in whatever order and down to exact equality, stress and elasticity of stretch-based materials stay finite and "
     "converge to the exact limit; no gap between stretches, however small, produces NaN, infinity, a warning-level division or a jump beyond round-off amplification (relative 1e-6).",
     ["inputs"], "Stretch gaps 0 and 1e-16..1e-1, every pair and the triple coincidence, diagonal and rotated states, batches that mix coincident and distinct points; Ogden, generalized-invariant and user models with and without cross terms; all spaces.",
     "FE tests meet a coincident state only at the undeformed start, with separable Ogden energies; values there are not compared.",
     [FW + "_stretches.py"],
     [("limit of the divided difference for repeated stretches", FW + "_stretches.py: Stretches.hessian"),
      ("closeness mask", FW + "_stretches.py: Stretches.hessian")],
     ["gradient/hessian of Stretches- and GeneralizedInvariants-based materials"])

prop("C09", "Built-in models return the derivatives of their documented energies",
     "For all parameter values - any subset zero, negative, integer or floating - and all arguments, the third-order-deformation model returns exactly the first and second partial derivatives of "
     "its documented polynomial (about 3, or about 0 in strain mode) and the Ogden model those of its documented sum for any number of terms; a derivative reported as absent (None) is identically zero. State variables are handed through unchanged.",
     ["inputs", "configurations"], "Invariant and stretch arrays of any shape; all 32 zero-patterns of the five coefficients, strain mode on and off; Ogden with 1..6 terms, positive and negative exponents.",
     "Tests use five fixed parameter sets and never look at the derivatives themselves.",
     [MO + "invariants/_third_order_deformation.py", MO + "stretches/_ogden.py"],
     [("polynomial derivatives and None convention", MO + "invariants/_third_order_deformation.py"),
      ("Ogden power sums", MO + "stretches/_ogden.py")],
     ["return values of model.gradient / model.hessian"])

prop("C10", "Torch model differentiates any energy of the invariants correctly",
     "For any strain-energy function of the three invariants written with differentiable PyTorch operations - linear, nonlinear, coupling the invariants, or independent of some of them - the "
     "automatic-differentiation model returns the exact first and second partial derivatives (absent ones as None or zero) for every input, including single points without batch axes, "
     "in the precision of PyTorch's default dtype, and works in every space.",
     ["inputs", "programs"], "Energy functions: polynomial, logarithmic, exponential, coupled, partially dependent; keyword parameters; float32 and float64 default dtype; batch shapes from () up.",
     "The tests use one energy (Yeoh: only I1, non-linear), which needs neither linear, coupled nor I3 terms.",
     [MO + "invariants/_torch.py"],
     [("autograd of the energy and of its gradient", MO + "invariants/_torch.py: TorchModel._grad, gradient, hessian")],
     ["return values of TorchModel.gradient/hessian and of materials built on it"])

prop("C11", "Generalized invariants are consistently normalized for every strain measure",
     "The built-in strain and deformation measures return their documented value and true first and second derivatives for every non-zero exponent, plus the reference values of the quadratic measure, and the model "
     "hands its material the documented normalized invariants and returns the derivatives of the resulting energy with respect to the stretches. Consequently the linear-elastic (small-strain shear) stiffness of an energy in the first two invariants does not depend on the exponent or measure.",
     ["inputs", "configurations"], "Exponents in [-6, 6] except 0, both built-in measures and user-written measures, energies in any subset of the generalized invariants, stretches 0.2..5.",
     "One test checks the initial slope for one deformation-type model at four exponents along two load paths; the third invariant, strain-type measures and second derivatives are not checked.",
     [MO + "stretches/_generalized_invariants.py", MO + "generalized/_stretch.py", FW + "_generalized.py"],
     [("normalization coefficients", MO + "stretches/_generalized_invariants.py: GeneralizedInvariantsModel.__init__"),
      ("measures", MO + "generalized/_stretch.py: strain, deformation")],
     ["return values of strain/deformation, model.gradient/hessian, arguments received by the user's material"])

prop("C12", "Reduced Voigt storage and products equal full tensor algebra",
     "Converting a symmetric tensor to reduced storage and back is the identity for second- and fourth-order tensors, and every product (dot, double-dot in all four modes, dyadic, symmetric crossed-dyadic and the two interchanged-index crossed-dyadic products), "
     "the major transpose, the identity and the triangle-copy helpers give the same tensor as the corresponding full index expression, for arbitrary (also unequal and indefinite) symmetric operands, any batch shape with broadcasting, and with or without a destination array.",
     ["inputs"], "Random, integer-valued, huge/tiny, diagonal and off-diagonal symmetric tensors; batch shapes () to (q,c), broadcasting; explicit out arrays; operands being the same object, equal copies, or different; non-major-symmetric fourth-order tensors.",
     "test_math checks one random batch of positive-definite tensors, several identities only for A = B or major-symmetric operands.",
     [MA],
     [("index maps", MA + ": asvoigt, astensor"), ("products", MA + ": dot, ddot, dya, cdya, cdya_ik, cdya_il"),
      ("helpers", MA + ": transpose, eye, tril_from_triu, triu_from_tril")],
     ["return values of hyperelastic.math functions, direct and inside frameworks/spaces"])

prop("C13", "Voigt trace, deviator, determinant, inverse and eigen-decomposition are exact",
     "Trace, deviator, determinant and inverse of a symmetric tensor in reduced storage (with or without a given determinant or destination, in place included) equal those of the full tensor, and the eigen-decomposition returns ascending eigenvalues "
     "(mapped by an optional function) with orthonormal rank-one eigenbases that rebuild the tensor, also for repeated eigenvalues, indefinite and badly scaled tensors, for any batch shape.",
     ["inputs"], "Random symmetric tensors: positive definite, indefinite, diagonal, repeated eigenvalues, scaled 1e-6..1e6; batch shapes () to (a,b,c).",
     "test_math only checks inv against itself and the zero trace of the deviator on one batch; det, trace and eigh values are never compared with an independent computation.",
     [MA],
     [("cofactor inverse and Sarrus determinant", MA + ": inv, det"), ("eigh", MA + ": eigh"), ("trace, dev", MA)],
     ["return values of hyperelastic.math functions"])

prop("C14", "Evaluation is pointwise for any batch shape and memory layout",
     "Evaluating a batch of deformation gradients gives for each point exactly what evaluating that point alone gives (to round-off), whatever the trailing axes - none, one or several, of length one, three, six or thousands, or empty - the order of the points, or the "
     "memory layout of the input (C, Fortran, strided, reversed, broadcast, read-only). The returned stress and elasticity have the trailing shape of the input.",
     ["inputs", "configurations"], "Trailing shapes (), (1,), (3,), (6,), (3,3), (6,6), (q,c), (a,b,c), (n large), with n up to 10^4; layouts; all spaces, frameworks, models, configurations.",
     "Tests use (8,8) FE batches and (1,n) lab batches in contiguous memory only.",
     [FW, SP, MA, MO],
     [("trailing-axes broadcasting", MA), ("masks over the batch", FW + "_stretches.py: Stretches.hessian"),
      ("broadcast of constant derivatives", SP + "_space.py: Space.piola")],
     ["gradient/hessian outputs"])

prop("C15", "User models may omit, simplify or vary the form of their derivatives",
     "A user-written model obtains the same stress and elasticity whether it returns a derivative as a full array, a scalar, or an array broadcastable over the batch, reports a zero derivative as None or as zero, or packs its derivatives into a tuple, list or array, within the documented templates. "
     "The framework calls the model with the true invariants (or ascending principal stretches) of the space's deformation and with the batch's trailing shape.",
     ["inputs", "programs"], "User invariants- and stretches-models with every None pattern consistent with the energy; scalar/array/broadcast returns; tuple/list/ndarray containers; all spaces; batches.",
     "Only the built-in models and one sympy model exercise the user-model contract; None combinations other than those of two built-ins are never reached.",
     [FW + "_invariants.py", FW + "_stretches.py", MO + "stretches/_generalized_invariants.py"],
     [("None handling", FW + "_invariants.py: Invariants.gradient, hessian"),
      ("normalization of hessian containers", FW + "_stretches.py: Stretches.hessian")],
     ["gradient/hessian outputs; arguments received by spy models"])

prop("C16", "Evaluations are pure: no history, no mutation, no sharing of results",
     "The stress and elasticity returned for given inputs do not depend on what was evaluated before - other deformations, other batch shapes, gradient or hessian calls in any order, failed evaluations, other materials sharing the same framework or model. "
     "No evaluation changes its input arrays, the model or its parameters, and arrays returned earlier never change later.",
     ["histories", "inputs"], "Random interleavings of gradient/hessian calls on several materials that share frameworks/models, with changing batch shapes, including calls that raise; hundreds of steps per history.",
     "Each test evaluates along one monotone path and never revisits an input after a different history or re-inspects inputs/outputs.",
     [FW, SP, MO],
     [("intermediate results kept on the objects", FW + "_invariants.py, _stretches.py; " + SP + " (self.C, self.S, self.I3 ...)"),
      ("in-place numpy operations", SP + "_space.py: Space.piola; " + MA)],
     ["gradient/hessian of spaces, frameworks and models; snapshots of inputs and of earlier outputs"],
     [("self.C, self.S, self.dWdI1, self.λ, ...", "per-call intermediates stored on instances", "frameworks, spaces, models")])

prop("C17", "Threaded evaluation gives the sequential result",
     "Enabling the parallel option of a space changes no result (beyond round-off) for any batch shape, model or configuration, and materials built from separate objects can be evaluated concurrently from several threads with the results they give when evaluated alone.",
     ["schedules", "inputs", "configurations"], "parallel in {True, False} on identical inputs, batch sizes around the thread count and its multiples; 2..8 user threads with independent materials, forced thread switching.",
     "One test enables parallel once and asserts nothing about values; no test uses threads.",
     [SP + "_space.py", FW, MA],
     [("einsumt in place of einsum", SP + "_space.py: Space.__init__, piola"), ("no module-level state", "src/hyperelastic")],
     ["gradient/hessian outputs under threads"])

prop("C18", "State variables are threaded through exactly and the tangent uses the old state",
     "A material hands the caller's state variables (last entry of its input) unchanged to the model, returns the model's updated ones next to the stress, and evaluates the elasticity with the old state, so that it is the derivative of the stress at fixed old state. "
     "The caller's state array is never modified, a material advertises initial values (undeformed deformation gradient, zero state of the requested size) from which it can be evaluated, and input entries between the first and last are ignored.",
     ["histories", "inputs", "configurations"], "User models with evolving state (damage, counters, rate-like), nstatevars 0..20, histories of many steps, all frameworks and spaces, with extra fields in the input.",
     "No test uses a model with state variables.",
     [FW, SP, MO],
     [("statevars pass-through", SP + "_deformation.py, _distortional.py, _dilatational.py"), ("initial variables x", FW + "__init__; " + SP + "__init__"),
      ("state handed to the model's hessian", FW + "_invariants.py, _stretches.py: hessian")],
     ["arguments received by spy models; gradient(...)[1]; x"])

prop("C19", "Response is linear in the strain energy, independent of the stress unit",
     "Scaling an energy (its stress-like parameters) by any positive or negative factor scales stress and elasticity by the same factor, from 1e-15 to 1e15, and the response of a sum of energies is the sum of the responses; a zero energy gives exactly zero.",
     ["inputs", "configurations"], "Factors 1e-15..1e15; all spaces, frameworks, built-in and user models; sums of Ogden terms, of polynomial coefficients, of user energies.",
     "All tests use stress-like parameters of order one in one unit.",
     [SP + "_distortional.py", FW, MO],
     [("skip of negligible elasticity", SP + "_distortional.py: Distortional.hessian"), ("zero/None shortcuts", MO + "invariants/_third_order_deformation.py; " + FW + "_invariants.py")],
     ["gradient/hessian outputs"])

prop("C20", "Lab simulations give the exact incompressible nominal stress",
     "Each load case deforms without volume change by its documented principal stretches, and a simulation's stress is the normal force per undeformed area of the ideal incompressible material with a traction-free transverse direction, i.e. the energy derivative along the load path (half of it for equi-biaxial), for any material, parameters and stretches. "
     "The result does not depend on whether the distortional or the full space is used nor on any pressure-like energy term, and parameters reach the material by label, in order, from any sequence type.",
     ["inputs", "configurations"], "Stretches 0.2..6 (scalars and arrays), uniaxial, planar, biaxial; materials of all frameworks; parameter containers list, tuple, array, dict views; axis/traction-free choices of the stress formula.",
     "Tests plot three load cases and compare one pair of curves; the values are not compared with an independent solution.",
     [LA + "_load_case.py", LA + "_simulation.py"],
     [("deformation gradients and force elimination of the pressure", LA + "_load_case.py"), ("label to parameter mapping", LA + "_simulation.py: Simulation.stress_curve_fit")],
     ["Simulation.stress, stress_curve_fit; loadcase.defgrad, loadcase.stress"])

prop("C21", "Curve fits report the optimum they found, and use exactly the unmasked data",
     "After a curve fit the returned parameters, the optimizer's stored parameters and every simulation's parameters agree, the residuals are simulated minus measured stress at those parameters over the selected points of all experiments in order, and the errors are the standard deviations of the returned covariance; the residual norm is never above that of the start. "
     "Data excluded by a mask has no influence, noise-free data generated by the model is fitted exactly, and results do not depend on the type (integer or floating) of the initial parameters.",
     ["inputs", "configurations", "histories"], "Random synthetic experiments (1..4 load cases, different lengths), linear and nonlinear models, masks as boolean arrays/index arrays/slices, repeated fits, scipy options (method, bounds, sigma).",
     "Two tests fit one data set each; one compares the four parameters, nothing checks residuals, errors, masks or simulations.",
     [LA + "_optimize.py", LA + "_curve_fit.py"],
     [("concatenation of experiments", LA + "_curve_fit.py"), ("write-back of the optimum", LA + "_optimize.py: Optimize.curve_fit"), ("mask", LA + "_optimize.py: Optimize.init_curve_fit")],
     ["Optimize.curve_fit return value, attributes parameters/errors/residuals, simulation.parameters"])

prop("C22", "Lab data conversion and plots show the data they are given",
     "An experiment's stretch is one plus displacement over length and its stress force over area for any data, independent of other experiments and without altering the data; plots draw exactly these data (force-displacement, stress-stretch, and one simulation and one experiment curve per pair in fit plots) "
     "into the given axes or a new figure, with the chosen or default labels, and return that figure and axes.",
     ["inputs", "configurations"], "Random data arrays, areas and lengths; new and existing axes; explicit and default labels and axis labels; fits with 1..4 pairs.",
     "Tests draw plots but never look at what was drawn.",
     [LA + "_experiment.py", LA + "_plotting.py", LA + "_optimize.py"],
     [("conversion", LA + "_experiment.py"), ("plotting", LA + "_plotting.py; " + LA + "_optimize.py: Optimize.plot")],
     ["Experiment.stretch/stress(); matplotlib artists after the call"])

prop("C23", "Materials are conservative: closed cycles do no work, tangents are symmetric",
     "Along every closed deformation cycle, of any size and shape, the stress power integrates to zero, the work between two states does not depend on the path, and the elasticity tensor has major symmetry (and the minor symmetries of its unfinalized form), for every energy-based material in every space.",
     ["histories", "inputs", "configurations"], "Closed smooth and polygonal cycles through rotations, large strain and volume change; all spaces, frameworks and built-in/user energies.",
     "No test returns to a previous state or integrates work.",
     [SP, FW, MO],
     [("derivation from one energy", FW), ("projection of stress and elasticity", SP)],
     ["stress along recorded deformation histories, elasticity tensors"])

prop("C24", "Finite-element analyses with these materials converge quadratically and balance",
     "Used as a material in FElupe, a converged analysis has residual forces at round-off level, Newton's method converges quadratically near the solution, the converged state does not depend on the number of load steps, and unloading returns to the stress-free start. "
     "A homogeneous (patch) deformation of any mesh gives the material-point response at every quadrature point, and the reaction work equals the stored-energy difference.",
     ["histories", "configurations"], "Small FElupe problems (cube meshes, distorted meshes; uniaxial, shear and rotation load histories; several step counts) with materials of all frameworks and spaces.",
     "The FE tests only require that the loose default tolerance is reached along a single load ramp.",
     [SP, FW],
     [("consistent stress and tangent in the (3,3,q,c) / (3,3,3,3,q,c) layout", SP + "_space.py: Space.piola"), ("umat.x protocol", SP)],
     ["residual norms per Newton iteration, converged fields, recorded umat calls"])

prop("C25", "Spaces project any Total-Lagrange material exactly, not only isotropic ones",
     "For every user-written material of the right Cauchy-Green tensor with the framework interface - anisotropic energies, non-coaxial stress, or a stress map without any energy - the deformation, distortional and dilatational spaces return the stress and elasticity of that material as a function of the full, the unimodular or the volumetric part of the deformation. "
     "The elasticity is the derivative of the returned stress also where the material's own tangent has no major symmetry, for every batch shape and configuration.",
     ["inputs", "configurations"], "Random anisotropic energies (fibres, orthotropic, coupled), stress maps without potential; all spaces, configurations, batch shapes.",
     "Tests apply the spaces to isotropic frameworks only, where stress and deformation share their principal axes and many wrong projections coincide with the right one.",
     [SP],
     [("projection of stress and elasticity", SP + "_distortional.py, _dilatational.py"), ("interface gradient([C, statevars]), hessian([C, statevars])", SP)],
     ["gradient/hessian outputs of spaces around user-written Total-Lagrange materials"])

prop("C26", "Long analyses keep their footprint: memory, objects and effort do not grow",
     "However long the history of evaluations with always new inputs, no material, tensor function, simulation, fit or plot accumulates memory, objects, autograd graphs, threads or figures, and an evaluation keeps making the same number of calls. "
     "The peak memory of an evaluation grows in proportion to the number of points of the batch.",
     ["histories", "inputs"], "Histories of repeated evaluations of all frameworks, spaces, options, tensor functions, simulations, fits and plots; batches of n, 2n, 4n points.",
     "Tests evaluate a handful of times and never look at memory.",
     [SP, FW, MO, MA, LA],
     [("no caches keyed by inputs, no retained graphs", SP + "_space.py; " + MO + "invariants/_torch.py"), ("batched expressions linear in the points", MA)],
     ["allocation trace, live objects, threads, figures, profiled calls"])

prop("C27", "Using the library leaves the host process alone and works in any setting",
     "Importing the library, building and evaluating materials, tensor functions, simulations, fits and plots change no process-wide state: floating-point error handling, print options, random generators, warning filters, plot settings, PyTorch modes and default precision, environment, working directory, threads (unless the parallel option is used), files, or functions of other packages. "
     "Evaluations of valid input print nothing and emit no warnings, unusual settings of the host do not change their results, and code of the user that runs inside an evaluation (models, energies, load cases) sees the host's settings.",
     ["inputs", "configurations", "histories"], "Every public entry point, all frameworks, spaces, options; failing calls; host settings (error handling raise/ignore, print options, buffer sizes, seeds, thread counts, default precision).",
     "Tests run under pytest's defaults and never compare process state.",
     [SP, FW, MO, MA, LA],
     [("import time", "src/hyperelastic/__init__.py"), ("default-dtype use", MO + "invariants/_torch.py"), ("plots into given axes", LA + "_plotting.py, _optimize.py")],
     ["snapshots of process-wide state, audit events, captured output and warnings"])

prop("C28", "The same material in every process, interpreter mode, installation and copy",
     "The same objects used in fresh interpreters (optimized or without docstrings, any hash seed, any import order, warnings as errors), in forked children, in other threads, and - except for the PyTorch model and the parallel option - without any optional package give the same results. "
     "Deep, shallow and pickled copies of materials, simulations and fits behave exactly like their original; changing the parameters of a deep or pickled copy takes effect in the copy and never in the original.",
     ["configurations", "histories"], "All frameworks, spaces, options, tensor functions, simulations and fits in nine interpreter settings, a forked child, a thread and four kinds of copies.",
     "Tests run in one process with every optional package installed and never copy an object.",
     ["src/hyperelastic/__init__.py", SP, FW, MO, LA],
     [("optional imports on demand", SP + "_space.py; " + MO + "invariants/_torch.py"), ("plain attributes (copyable, picklable)", SP + "; " + FW)],
     ["results of the same uses in other processes and of copies"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
