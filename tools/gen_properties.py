#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are maintained)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=["src/einsteinpy/"+f for f in files],
            mechanism=[dict(name=n,where="src/einsteinpy/"+w) for n,w in mech],
            observe_at=observe or [], hook_needed=None, **({"state":state} if state else {}))))
I=["inputs"]
p("M01","Numeric metrics equal the textbook line elements",
 "For every mass, spin in [0,1], charge and position outside coordinate singularities, metric_covariant of Schwarzschild, Kerr and KerrNewman returns exactly the textbook covariant metric in SI units, signature (+,-,-,-), with r_s = 2GM/c^2, alpha = a GM/c^2, r_Q^2 = Q^2 G k_e/c^4; the helpers sigma, delta, rho, alpha and schwarzschild_radius return their documented formulas.",
 I,"all M>0, 0<=a<=1, real Q, all r, theta with the metric defined",
 "Tests evaluate a few points, compare Kerr-Newman only against itself or at Q=0, and cannot cover every mass/spin/charge/position.",
 ["metric/base_metric.py","metric/schwarzschild.py","metric/kerr.py","metric/kerrnewman.py"],
 [("metric_covariant","metric/kerr.py"),("metric_covariant","metric/kerrnewman.py"),("metric_covariant","metric/schwarzschild.py"),("sigma/delta/rho/alpha","metric/base_metric.py")],
 ["metric_covariant(x_vec)","BaseMetric.alpha/sigma/delta/rho/schwarzschild_radius"])
p("M02","Christoffel symbols are the Levi-Civita connection of the metric",
 "For Schwarzschild, Kerr and KerrNewman, the array returned by the metric's christoffels callable equals, in all 64 components, the Levi-Civita connection of that same metric's metric_covariant, at every position and for every mass, spin and charge. nonzero_christoffels() lists every index triple that is not identically zero.",
 I,"all parameters and positions outside coordinate singularities; all 64 components",
 "Tests compare a handful of components at one point with hand-written derivatives that share the code's own formulas.",
 ["metric/schwarzschild.py","metric/kerr.py","metric/kerrnewman.py"],
 [("_christoffels/_dg_dx_bl","metric/kerr.py"),("_christoffels/_dg_dx_bl","metric/kerrnewman.py"),("_christoffels","metric/schwarzschild.py")],
 ["metric.christoffels(x_vec)","Kerr.nonzero_christoffels()"])
p("M03","f_vec is the geodesic (Lorentz-force) equation right-hand side",
 "For each built-in metric, f_vec(lambda, (x,u)) returns (u, -Gamma^m_{ab} u^a u^b) for every state; for KerrNewman with test-particle charge per unit mass q it returns additionally the Lorentz term -q F^{mn} g_{ns} u^s, which keeps g(u,u) constant along the flow. It does not modify its input vector.",
 I,"all parameters, positions and 4-velocities, all q",
 "Existing tests use one state, and Q=q=0 for the charged case, so the Lorentz term and most products are never distinguished.",
 ["metric/schwarzschild.py","metric/kerr.py","metric/kerrnewman.py"],
 [("_f_vec","metric/schwarzschild.py"),("_f_vec","metric/kerr.py"),("_f_vec","metric/kerrnewman.py")],["metric.f_vec(lambda, vec)"])
p("M04","Kerr-Newman electromagnetic field is F = dA and is raised by the metric",
 "The covariant potential of KerrNewman is A = (r r_Q/rho^2, 0, 0, -r alpha r_Q sin^2(theta)/rho^2) with r_Q = sqrt(Q^2 G k_e/c^4); em_tensor_covariant is antisymmetric and equals the exterior derivative of that potential at every point. The contravariant potential and tensor are those objects raised with metric_contravariant.",
 I,"all M, a, Q and positions",
 "Tests check finitely many components at one point against values copied from the implementation.",
 ["metric/kerrnewman.py"],[("em_potential_covariant/em_tensor_covariant","metric/kerrnewman.py")],
 ["em_potential_covariant","em_potential_contravariant","em_tensor_covariant","em_tensor_contravariant"])
p("M05","Contravariant metric is the inverse; perturbations are added to the metric",
 "metric_contravariant(x) times metric_covariant(x) is the identity for every built-in metric and every user-supplied covariant metric function; for a BaseMetric with a perturbation, metric_covariant is the user's metric plus the perturbation at the same position, and the contravariant form is the inverse of that perturbed metric.",
 I,"all user metric and perturbation functions (uninterpreted), all positions",
 "Tests use one constant example.",["metric/base_metric.py"],[("metric_covariant/metric_contravariant","metric/base_metric.py")],["metric_covariant","metric_contravariant"])
p("M06","Singularities: horizons are roots of Delta, ergospheres roots of g_tt",
 "singularities() returns horizons that satisfy r^2 - r_s r + alpha^2 + r_Q^2 = 0 and ergosphere functions that satisfy r^2 - r_s r + alpha^2 cos^2(theta) + r_Q^2 = 0 at every theta, ordered inner ergosphere <= inner horizon <= outer horizon <= outer ergosphere, whenever the black hole is sub-extremal; for Schwarzschild they are 0 and r_s.",
 I,"all M, a, Q with alpha^2 + r_Q^2 <= (r_s/2)^2, all theta",
 "Tests look at the returned keys/types or one parameter set.",["metric/base_metric.py"],[("singularities","metric/base_metric.py")],["metric.singularities()"])
p("M07","Wrong coordinates and unphysical spin are always rejected",
 "Every metric operation (covariant metric, Christoffel symbols, f_vec, singularities) on a metric built in a coordinate system it is not available in raises CoordinateError, and every operation that uses the spin raises ValueError exactly when the spin is outside [0,1].",
 I,"all coordinate systems, all real spins, all positions",
 "Tests cover a few systems and spin values only.",["metric/base_metric.py","metric/schwarzschild.py","metric/kerr.py","metric/kerrnewman.py"],
 [("alpha","metric/base_metric.py"),("system dispatch","metric/kerr.py")],["CoordinateError","ValueError"])
p("M08","Results do not depend on the units in which parameters are given",
 "Giving mass, spin, charge or charge-to-mass ratio in any compatible unit (for example kg, solar masses, tonnes) yields the same metric, Christoffel symbols, f_vec, electromagnetic field, singularities and coordinate conversions; parameters with incompatible units are rejected.",
 I,"all unit scale factors kappa > 0 for each parameter",
 "Tests pass every parameter in SI units.",["metric/base_metric.py","metric/schwarzschild.py","metric/kerr.py","metric/kerrnewman.py","units.py"],
 [("primitive","units.py"),("BaseMetric.__init__","metric/base_metric.py")],["metric_covariant","christoffels","singularities","convert_bl(M=..., a=...)"])
p("C01","Position conversions satisfy the defining relations and round-trip exactly",
 "Converting a position between Cartesian, spherical and Boyer-Lindquist coordinates satisfies x = sqrt(r^2+alpha^2) sin(theta) cos(phi), y = sqrt(r^2+alpha^2) sin(theta) sin(phi), z = r cos(theta) (alpha = 0 for spherical), preserves t, and yields r >= 0, theta in [0,pi], phi in (-pi,pi]; converting there and back returns the original position.",
 I,"all positions in the coordinate chart, all spin lengths alpha, every pair of systems",
 "Tests use a few fixed points.",["coordinates/utils.py","coordinates/conversion.py"],
 [("cartesian_to_spherical/cartesian_to_bl/...","coordinates/utils.py"),("*Conversion.convert_*","coordinates/conversion.py")],["convert_spherical","convert_cartesian","convert_bl"])
p("C02","Velocity conversions are the exact push-forward of the position conversion",
 "Velocities returned by the coordinate conversions are the time derivatives of the converted positions along any trajectory with the given position and velocity (Jacobian push-forward), at every point of the chart including points on the coordinate planes x = 0 or y = 0; converting there and back returns the original velocity.",
 I,"all positions off the axis and all velocities, every pair of systems",
 "Tests use a few fixed points, none with x = 0.",["coordinates/utils.py","coordinates/conversion.py"],
 [("cartesian_to_bl velocities","coordinates/utils.py")],["convert_* with velocities","*_differential"])
p("C03","Coordinate objects carry units, type, system and SI position faithfully",
 "Cartesian, Spherical and BoyerLindquist objects (and their differentials) built from quantities in any compatible units convert to objects of the advertised class whose SI components equal the raw conversion of the SI inputs, position() returns (c t, x1, x2, x3) in SI, values() returns the SI components, and indexing by integer or name returns the stored quantity; inputs with incompatible units are rejected.",
 I,"all unit scales, all coordinate values, all classes",
 "Tests use single fixed instances in mostly SI units.",["coordinates/core.py","coordinates/differential.py","coordinates/conversion.py"],
 [("to_spherical/to_bl/to_cartesian","coordinates/core.py"),("*_differential","coordinates/differential.py")],["to_*","position()","values()","__getitem__"])
p("C04","4-velocity is future-directed and normalised to g(u,u) = c^2",
 "velocity(metric) of any coordinate differential returns a 4-vector whose spatial part is the given 3-velocity and whose time component is the root of g(u,u) = c^2 with u^t > 0 outside horizon/ergosphere, for every metric (any symmetric g with off-diagonal terms); a metric built in a different coordinate system raises CoordinateError. lorentz_factor(v) = 1/sqrt(1 - v^2/c^2).",
 I,"all symmetric metrics, positions and velocities",
 "Tests use diagonal or Kerr metrics at one point.",["coordinates/differential.py","coordinates/utils.py"],
 [("v0","coordinates/utils.py"),("v_t/velocity","coordinates/differential.py")],["velocity(metric)","v_t","lorentz_factor"])
p("D01","Dual numbers compute exact derivatives of every composed expression",
 "Every DualNumber operation (+, -, *, /, negation, integer and real powers, sin, cos, tan, log, exp, with dual or plain operands on either side) returns the exact value and the exact derivative (sum, product, quotient and chain rules), hence any expression built from them carries its exact directional derivative.",
 I,"all values and derivatives in the operation's domain, both operand orders",
 "Tests use fixed operand pairs.",["utils/dual.py"],[("DualNumber","utils/dual.py")],["DualNumber operators"])
p("D02","Metric Jacobians are exact and symmetric",
 "For every user metric function, the derivative routines return exactly the partial derivatives of the metric components with respect to the chosen coordinate at the given position, as a symmetric 4x4 matrix, without modifying the position or the metric parameters; invalid derivative indices raise ValueError.",
 I,"all (uninterpreted) symmetric metric functions, positions, parameters, coordinates 0..3",
 "Tests differentiate one fixed metric.",["utils/dual.py","integrators/utils.py"],[("_deriv/_diff_g/_jacobian_g","utils/dual.py"),("_PartHamFlow","integrators/utils.py")],["_jacobian_g","_diff_g"])
p("G01","Initial 4-momentum lies on the mass shell and is future-directed",
 "For every metric function, metric parameters, position and 3-momentum, the initial 4-momentum of a Geodesic keeps the given spatial momentum and satisfies g^{ab} p_a p_b = -1 for time-like and 0 for null-like geodesics, with the future-directed root (p_t <= 0 contribution, i.e. -sqrt branch of the quadratic for g^{tt}<0).",
 I,"all contravariant metrics including all off-diagonal terms, positions, momenta, both kinds",
 "Tests use built-in metrics at a few points.",["geodesic/utils.py","geodesic/geodesic.py"],[("_P","geodesic/utils.py")],["Geodesic(...).momentum"])
p("G02","Built-in geodesic metrics are inverses of the textbook covariant metrics",
 "The contravariant Schwarzschild, Kerr and Kerr-Newman metrics used for geodesics (units c=G=M=1, signature (-,+,+,+)) are the exact inverses of the textbook covariant metrics for all spins, charges and positions; Kerr-Newman reduces to Kerr at Q=0 and Kerr to Schwarzschild at a=0.",
 I,"all a, Q, r, theta outside coordinate singularities",
 "Tests check a few points.",["geodesic/utils.py"],[("_sch/_kerr/_kerrnewman/sigma/delta","geodesic/utils.py")],["metric callables used by Geodesic"])
p("G03","Integrator flows are the exact Hamiltonian flows",
 "For every metric, flow A advances (q2, p1) by exactly delta times Hamilton's equations of H(q1,p2) leaving q1, p2 fixed, flow B likewise for H(q2,p1), and the mixed flow is the exact rotation generated by omega/2 (|q1-q2|^2 + |p1-p2|^2); flows for -delta undo flows for delta and every flow is symplectic.",
 I,"all metrics, phase-space points, delta, omega",
 "Tests evaluate each flow at one point for one metric.",["integrators/utils.py"],[("_flow_A/_flow_B/_flow_mixed","integrators/utils.py")],["_flow_A","_flow_B","_flow_mixed"])
p("G04","Integration steps are symmetric compositions of the stated order",
 "One order-2 step is the composition A(d/2) B(d/2) C(d) B(d/2) A(d/2), so stepping by delta and then -delta returns exactly the initial state; order 4, 6 and 8 steps are triple-jump compositions of steps of the order below whose coefficients satisfy 2 Z1 + Z0 = 1 and cancel the leading error term of that lower order; unsupported orders raise NotImplementedError.",
 I+["histories"],"all metrics, states, step sizes, orders",
 "Tests run a few trajectories with loose tolerances; an order-8 scheme degraded to order 2 passes.",["integrators/fantasy.py","integrators/utils.py"],[("_ord_2.._ord_8","integrators/fantasy.py"),("_Z","integrators/utils.py")],["GeodesicIntegrator.step()"])
p("G05","Momenta of cyclic coordinates are conserved by every integration step",
 "For every metric independent of t and phi, each integration step of any order leaves p_t and p_phi (energy and axial angular momentum) exactly unchanged in both phase-space copies taken together (p1+p2), for every state, step size and coupling.",
 I+["histories"],"all stationary axisymmetric metrics, all states, step sizes, omegas and numbers of steps",
 "Tests look at conservation within loose tolerances for single trajectories.",["integrators/fantasy.py","integrators/utils.py"],[("step","integrators/fantasy.py")],["GeodesicIntegrator.step()","results"])
p("G06","Trajectories record every step in order, in the advertised coordinates",
 "A Geodesic's trajectory has exactly `steps` rows (steps >= 1), row i being the (4-position, 4-momentum) of the first phase-space copy after i+1 integrator steps from the initial state with the requested metric, parameters, delta, order, omega and tolerances; with Cartesian output the position columns are (t, r sin(theta) cos(phi), r sin(theta) sin(phi), r cos(theta)) and momenta are unchanged; Timelike/Nulllike select the kind; a RuntimeWarning is issued for exactly the steps whose norm deviates beyond the tolerances unless suppressed.",
 I+["histories","configurations"],"all metrics, initial data, step counts, options",
 "Tests only compare two or three configurations.",["geodesic/geodesic.py","integrators/fantasy.py"],[("calculate_trajectory","geodesic/geodesic.py"),("step","integrators/fantasy.py")],["Geodesic.trajectory","GeodesicIntegrator.results"])
p("R01","RK4naive performs classical RK4 steps and stops once t_bound is reached",
 "Each RK4naive step advances (t, y) by the classical fourth-order Runge-Kutta formula for the given function and (signed) step size, and once t has reached t_bound (from either direction of integration) a further step leaves t and y unchanged and warns.",
 I+["histories"],"all right-hand sides (uninterpreted), states, step sizes, bounds, directions",
 "Tests integrate single functions with tolerance.",["integrators/runge_kutta.py"],[("RK4naive.step","integrators/runge_kutta.py")],["RK4naive.t","RK4naive.y"])
p("R02","RK45 wraps the SciPy solver with the documented step and tolerance limits",
 "RK45 hands the given function, initial state and bound to the adaptive solver with first step 0.8*stepsize, maximum step 8*stepsize, rtol defaulting to 0.2*stepsize and atol to rtol/800, and stepping a finished or failed solver warns instead of raising and changes nothing.",
 I+["histories"],"all arguments, all solver outcomes",
 "Tests run one trajectory.",["integrators/runge_kutta.py"],[("RK45","integrators/runge_kutta.py")],["RK45.step()"])
p("S01","Symbolic Christoffel symbols are the Levi-Civita connection",
 "For every metric of every dimension, given in covariant or contravariant form, diagonal or not, ChristoffelSymbols.from_metric returns Gamma^i_{jk} = 1/2 g^{in}(d_k g_{nj} + d_j g_{nk} - d_n g_{jk}), symmetric in the lower indices, with configuration 'ull' and the given metric as parent.",
 I+["programs"],"all smooth symmetric metrics (uninterpreted component functions) in dimension 2, 3, 4",
 "Tests check named metrics.",["symbolic/christoffel.py"],[("from_metric","symbolic/christoffel.py")],["ChristoffelSymbols.from_metric"])
p("S02","Symbolic Riemann tensor is the curvature of the connection",
 "RiemannCurvatureTensor.from_christoffels returns R^t_{srn} = d_r Gamma^t_{sn} - d_n Gamma^t_{sr} + Gamma^p_{sn} Gamma^t_{pr} - Gamma^p_{sr} Gamma^t_{pn} for every connection (converted to 'ull' first if given in another configuration), from_metric agrees with it, and the result has the antisymmetry and first Bianchi symmetries.",
 I+["programs"],"all connections (uninterpreted) in dimension 2, 3, 4",
 "Tests check named metrics.",["symbolic/riemann.py"],[("from_christoffels","symbolic/riemann.py")],["RiemannCurvatureTensor.from_christoffels/from_metric"])
p("S03","Ricci tensor and scalar are the contractions, by every construction route",
 "RicciTensor is R^a_{man} contracted on the first and third index, RicciScalar is g^{mn} R_{mn}, and from_metric, from_christoffels, from_riemann and from_riccitensor all give the same values for every metric, whatever configuration the argument is given in.",
 I+["programs"],"all curvature tensors (uninterpreted) and metrics in dimension 2, 3, 4",
 "Tests check named metrics.",["symbolic/ricci.py"],[("from_*","symbolic/ricci.py")],["RicciTensor.from_*","RicciScalar.from_*"])
p("S04","Einstein and stress-energy tensors follow the field equations",
 "EinsteinTensor.from_metric returns R_{mn} - 1/2 R g_{mn} and StressEnergyMomentumTensor.from_metric returns c^4/(8 pi G) (G_{mn} - Lambda g_{mn}) with the library's sign convention, for every metric in either configuration.",
 I+["programs"],"all metrics in dimension 2, 3, 4",
 "Tests check named metrics.",["symbolic/einstein.py","symbolic/stress_energy_momentum.py"],[("from_metric","symbolic/einstein.py"),("from_metric","symbolic/stress_energy_momentum.py")],["from_metric"])
p("S05","Weyl and Schouten tensors follow the Ricci decomposition",
 "For every metric in dimension n >= 3 SchoutenTensor.from_metric returns (R_{mn} - R g_{mn}/(2(n-1)))/(n-2); WeylTensor.from_metric returns the fully covariant trace-free part of the Riemann tensor (Riemann = Weyl + Schouten wedge g), identically zero for n = 3; dimensions below 3 raise ValueError.",
 I+["programs"],"all metrics in dimension 3, 4 (formula also n=5 for Schouten), dimension 2 for the error",
 "Tests check named metrics.",["symbolic/weyl.py","symbolic/schouten.py"],[("from_metric","symbolic/weyl.py"),("from_metric","symbolic/schouten.py")],["from_metric"])
p("S06","Index raising and lowering contracts with the metric and round-trips",
 "change_config of every tensor class contracts exactly the indices whose letter changes with g (lowering) or g^{-1} (raising), leaves the others and the index order untouched, returns the same class with the new configuration, name tag and metric, and changing back restores the original components; invalid configurations raise ValueError and a missing metric raises an error. Tensors of every class are built only from an array and a configuration string over {u, l} with one letter per index (TypeError or ValueError otherwise). MetricTensor inv and lower_config give the matrix inverse and the covariant form.",
 I+["programs"],"all tensors of rank 1-4 with uninterpreted components, all metrics, all configurations",
 "Tests check a few tensors of named metrics.",["symbolic/tensor.py","symbolic/metric.py","symbolic/vector.py","symbolic/christoffel.py","symbolic/riemann.py","symbolic/ricci.py","symbolic/einstein.py","symbolic/weyl.py","symbolic/schouten.py","symbolic/stress_energy_momentum.py"],[("_change_config","symbolic/tensor.py"),("change_config/inv","symbolic/metric.py")],["change_config","inv","lower_config"])
p("S07","Tensor product is the outer product with exactly the requested contraction",
 "tensor_product(A, B) returns the outer product with configuration A.config+B.config; tensor_product(A, B, i, j), for every pair of positions including 0, returns the contraction of index i of A with index j of B and the remaining configuration in order, and raises ValueError when the two indices are both upper or both lower.",
 I+["programs"],"all tensors with uninterpreted components, all index positions",
 "Tests contract a single index pair.",["symbolic/tensor.py"],[("tensor_product","symbolic/tensor.py")],["tensor_product"])
p("S08","Transformation by a matrix acts on every index of a tensor",
 "lorentz_transform(L) contracts every upper index with L (T'^a = L^a_b T^b) and every lower index with the first index of L (T'_a = L^b_a T_b, the library's convention), for tensors of every rank and configuration, keeping class, configuration and symbols and dropping the parent metric.",
 I+["programs"],"all tensors of rank 1-4, all matrices",
 "Tests use one boost.",["symbolic/tensor.py","symbolic/vector.py","symbolic/metric.py","symbolic/christoffel.py","symbolic/riemann.py","symbolic/ricci.py","symbolic/einstein.py","symbolic/weyl.py","symbolic/schouten.py","symbolic/stress_energy_momentum.py"],[("lorentz_transform","symbolic/tensor.py")],["lorentz_transform"])
p("S09","Substitution, simplification and lambdification preserve the tensor",
 "subs substitutes in every component and keeps the index configuration for tensors of every rank, simplify changes no value, and tensor_lambdify returns a function whose argument order is (syms, variables) or the caller's order and whose value at any numbers equals substituting those numbers into every component.",
 I+["programs"],"all tensors of rank 0-4, all substitutions, all numeric points",
 "Tests substitute in one rank-2 tensor.",["symbolic/tensor.py","symbolic/helpers.py"],[("subs/simplify/tensor_lambdify","symbolic/tensor.py")],["subs","simplify","tensor_lambdify"])
p("S10","Predefined metrics are the published solutions",
 "Every predefined metric returns the published line element in its documented coordinates, parameters and signature, hence satisfies its field equations: Schwarzschild, Kerr and the Bessel gravitational wave are Ricci-flat, (anti-)de Sitter have R_{mn} proportional to g_{mn}, Kerr-Newman and Reissner-Nordstrom have zero Ricci scalar, Minkowski is flat, and find(s) returns exactly the predefined names containing s case-insensitively.",
 I+["configurations"],"all parameter values (symbolic), all points",
 "Tests call the constructors and compare names or shapes; a wrong exponent or argument order goes unnoticed.",
 ["symbolic/predefined/vacuum_solutions.py","symbolic/predefined/de_sitter.py","symbolic/predefined/minkowski.py","symbolic/predefined/bessel_gravitational_wave.py","symbolic/predefined/alcubierre_warp.py","symbolic/predefined/find.py"],
 [("predefined constructors","symbolic/predefined/vacuum_solutions.py")],["einsteinpy.symbolic.predefined.*"])
p("S11","Change-of-basis matrices describe the change of chart",
 "TransformationMatrix holds exactly the rank-2 entries, coordinates and expressions it is given and rejects every other rank with ValueError. For a matrix built by from_new2old from old coordinates given as functions of the new ones, inv() is the Jacobian of these functions, entry (i, j) being d old_j / d new_i, wherever these derivatives are nonzero; inv() is the matrix inverse, returns the same value when asked again and leaves the matrix unchanged. from_old2new raises NotImplementedError.",
 I+["programs"],"all coordinate changes in 2 to 4 dimensions with uninterpreted functions",
 "Tests check one polar chart.",["symbolic/helpers.py"],[("TransformationMatrix","symbolic/helpers.py")],["TransformationMatrix","from_new2old","inv"])
p("U01","Scale factor follows the era's power law and its derivative is exact",
 "scalar_factor(t, era, k) is k t^(2/3), k t^(1/2) or k exp(sqrt(Lambda/3) t) for matter, radiation and dark-energy eras with t converted to seconds from any time unit, scalar_factor_derivative is exactly its time derivative, and any other era raises ValueError.",
 I,"all t>0 in any time unit, all tuning parameters, all era strings",
 "Tests evaluate one time per era.",["utils/scalar_factor.py"],[("scalar_factor","utils/scalar_factor.py")],["scalar_factor","scalar_factor_derivative"])
p("H01","Schwarzschild embedding surface samples the embedding consistently",
 "For every mass in any mass unit and step scale, radial_coord(r) = r/sqrt(1-2m/r), gradient(r) is the slope of the embedding that the curve integrates, get_values returns one (R, Z) pair per visited radius - Z the left Riemann sum of the gradient with step m/alpha, from 0 just outside r = 3m outward while r < 9m and again inward while r > 9m/4 - and get_values_surface returns X, Y, Z of the surface of revolution (60 azimuths over a full turn) of the (R, Z) pairs out to 20m.",
 I,"all masses, units, radii and step scales",
 "Tests pin one mass and step.",["hypersurface/schwarzschildembedding.py"],[("get_values/get_values_surface","hypersurface/schwarzschildembedding.py")],["radial_coord","gradient","get_values","get_values_surface"])
p("H02","Black-hole shadow intensities follow the stated ray equations",
 "For every mass, field of view and number of rays, Shadow samples n_rays impact parameters from 3 sqrt(3) M to the field of view, computes each turning point as a root of r/sqrt(1-2M/r) = b for that mass (keeping the rays whose root is real), integrates the red- and blue-shifted intensity of the documented emission model between turning point and field of view (inner rays: the red-shifted one from the horizon), lists the inner rays before the outer ones with mirrored impact parameters, and smoothen replaces them by the cubic interpolation on an even grid of the same range.",
 I,"all masses, fields of view, impact parameters and radii",
 "Tests check one mass.",["rays/shadow.py"],[("_root_equation/_intensity_*","rays/shadow.py")],["Shadow.z","Shadow.intensity","Shadow.fb1/fb2"])
p("P01","Plots show the true horizon, ergosphere and trajectory data",
 "In every geodesic plot (static and interactive, 2D and 3D) the drawn horizon is the sphere/circle of radius 1+sqrt(1-a^2), the drawn ergosphere has radius 1+sqrt(1-a^2 cos^2(theta)) at polar angle theta, and the drawn curve is exactly the requested trajectory columns (parametric plots: each coordinate against the parameter; animations: frame n shows the first n rows); invalid aspects or coordinate indices raise the documented errors. The hypersurface and shadow plotters draw exactly the surface, intensities and impact parameters of the object they are given.",
 I+["configurations"],"all spins in [0,1], all polar angles, all trajectories",
 "Tests only check that plotting calls are made.",["plotting/geodesic/static.py","plotting/geodesic/interactive.py"],[("_draw_bh/_draw_bh_2D/plot","plotting/geodesic/static.py"),("_draw_bh/_draw_bh_2D/plot","plotting/geodesic/interactive.py")],["arguments of the drawing back ends"])
p("B01","Bodies, constants and errors carry the data they were given",
 "A Body keeps its name, mass, charge, radius, coordinates and parent, exposes position and velocity vectors matching its coordinate object in every coordinate system, and rejects quantities of the wrong physical dimension; library constants equal the SI values (k_e = 1/(4 pi eps0)); error objects report all their arguments.",
 I,"all bodies, coordinate objects and argument lists",
 "Tests build a few bodies.",["bodies.py","constant.py","utils/exceptions.py"],[("Body.__post_init__","bodies.py")],["Body","einsteinpy.constant","CoordinateError"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
