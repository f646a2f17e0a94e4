"""Single source of properties.jsonl and MANIFEST.json (run tool/mkprops.py)."""
LEVEL = "other"
ASM = "src/gsThinShellAssembler.hpp"
UT = "src/gsThinShellUtils.h"
TRUST = " Trusted: clang's AST of the instantiated templates, the walker's treatment of statements, the stated meaning of the core expression library."
ID_NOTE = "Every integrand is recovered from the source by dataflow and both sides of the identity are compared as polynomials (random interpretation over a prime field, error below 2^-50); holds for every mesh, geometry, material and load."
def p(id, title, statement, over, text, why, files, mech, technique, note, level=LEVEL, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
             anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, technique=technique, note=note + TRUST, level=level)
    d.update(kw); return d
NLM = "src/gsMaterialMatrixNonlinear.hpp"
LIN = "src/gsMaterialMatrixLinear.hpp"
EV = "src/gsMaterialMatrixEval.hpp"
INT = "src/gsMaterialMatrixIntegrate.hpp"
DWR = "src/gsThinShellAssemblerDWR.hpp"
BDM = "src/gsMaterialMatrixBaseDim.hpp"
MV = "interprocedural abstract interpretation of every instantiated material class + algebraic value numbering"
MNOTE = "Each evaluation routine is interpreted from the source over a prime field with infinitesimals on random jets of the undeformed and deformed surface; the result is compared with the definition (formal differentiation of the stored energy). Compressible plane-stress states are power series around exactly solvable states (order 2 quick, 3 thorough)."
RI = "weak-form dataflow + algebraic value numbering"
FUN = "src/gsThinShellFunctions.hpp"
TFT = "src/gsMaterialMatrixTFT.hpp"
def na(id, title, statement, over, text, why, files, mech, reason):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, reason=reason)
P = [
 p("S01", "Tangent matrix is the exact derivative of the residual",
   "For every geometry, material, displacement and combination of distributed load, follower pressure and elastic foundation, the matrix assembled at a displaced state is exactly minus the derivative of the vector assembled at that state, for shells, membranes and planar problems. This concerns the interior (domain) contributions: internal forces, bending, pressure and foundation.",
   ["inputs", "configurations"], "all geometries, materials, displacements, loads and element families",
   "the tests solve a handful of benchmark problems with one load case each; a missing or wrong tangent term only slows Newton's method or shows up for curved deformed states with particular loads",
   [ASM, UT], [("assembleMatrix / assembleVector", ASM), ("expression classes of the normal variations", UT)], RI, ID_NOTE),
 p("S02", "Weak boundary and interface penalty tangents match their residuals",
   "For weakly imposed displacements, weakly clamped edges and weakly coupled patch interfaces (displacement and rotation coupling), the matrix contribution assembled at a displaced state is exactly minus the derivative of the vector contribution, for every geometry, displacement, penalty value and element family.",
   ["inputs", "configurations"], "all geometries, displacements, boundary and interface sets, penalty values",
   "no stable test uses weak boundary conditions or weak coupling in a nonlinear analysis",
   [ASM, UT], [("weak boundary condition and interface terms", ASM)], RI, ID_NOTE),
 p("S03", "Linear system is the nonlinear system at zero displacement",
   "The linear stiffness matrix equals the nonlinear matrix at zero displacement (apart from the stiffness of follower loads) and the linear load vector equals the nonlinear vector at zero displacement, including body force, pressure, foundation, boundary and interface terms and regardless of which of them are active.",
   ["inputs", "configurations"], "all geometries, materials, loads, boundary and interface sets",
   "tests compare final displacements of one problem; a load or penalty that is scaled differently in one of the two paths needs that load in both a linear and a nonlinear run",
   [ASM], [("assemble() against assembleMatrix/assembleVector", ASM)], RI, ID_NOTE),
 p("S04", "All entry points assemble the same operator",
   "Assembling from a solution vector, from a deformed geometry, as a combined matrix-and-vector pass, or through the separate pressure and foundation entry points yields the same bilinear and linear forms; the mixed-integration-point tangent equals the plain tangent when its extrapolated stresses are the actual stresses.",
   ["inputs", "configurations"], "all argument forms, geometries, loads and element families",
   "tests use one entry point per problem",
   [ASM], [("overloads of assemble, assembleMatrix, assembleVector, assemblePressure*, assembleFoundation*", ASM)], RI, ID_NOTE),
 p("S05", "Boundary reaction equals the internal force on that boundary",
   "The boundary reaction force computed for a deformed shell is the internal-force part of the nonlinear residual (no loads, no penalties) summed over every control point of every requested side, each displacement component into its own slot.",
   ["inputs", "configurations"], "all geometries, deformations, materials and sets of patch sides",
   "no stable test computes a reaction force",
   [ASM], [("boundaryForce", ASM)], RI + " and loop-coverage rule", ID_NOTE),
 p("S06", "Membrane and planar families are restrictions of the shell family",
   "A membrane assembles exactly what the shell assembles once the bending stiffness and moments are zero, and a planar problem assembles exactly what the membrane assembles for a surface that stays in the plane, for the matrix, the residual and the linear system.",
   ["inputs", "configurations"], "all geometries, deformations, materials, boundary and interface sets",
   "tests run each family on its own problem",
   [ASM], [("partial specialisations by dimension and bending", ASM)], RI, ID_NOTE),
 p("S07", "Surface-variation expressions are the exact derivatives they stand for",
   "At every evaluation point, the building blocks of the weak forms evaluate to exactly what they stand for: first and second variations of the unit surface normal, of the boundary tangent and of the in-plane boundary normal, second derivatives and their projections, their contractions with a tensor, and the transformations between the local Cartesian and the curvilinear bases. This holds for basis functions, solution fields and plain fields alike, and each block requests all the geometry data it uses.",
   ["inputs", "configurations"], "all geometries, basis functions, fields and evaluation points",
   "the tests only see assembled solutions of a few problems; several of these blocks are used only by weak coupling or by error estimation",
   [UT], [("expression classes var1/var2, tvar1, ovar1/ovar2, deriv2, flatdot, cartcov/cartcon", UT)], "abstract interpretation of each expression class + algebraic value numbering",
   "Each class's evaluation is interpreted over a prime field on symbolic-random jets (2 actives, 2 points, 3 components) and compared with the exact derivative computed with dual numbers."),
 p("S08", "Stress is the derivative of the stored energy of the named law",
   "For every material (linear Saint-Venant Kirchhoff; Neo-Hookean, extended Neo-Hookean, Mooney-Rivlin and Ogden, compressible or incompressible, in each available implementation, planar or surface), every point, through-thickness level, parameter field and deformation, the returned in-plane second Piola-Kirchhoff stress is twice the derivative of that law's stored energy with respect to the deformation under the plane-stress condition. Undeformed and rigidly moved states give zero stress, equal principal stretches are no exception, and the stress of a point and level stands in the column of that point and level.",
   ["inputs", "configurations"], "all materials, implementations, geometries, deformations, parameters, points and levels",
   "the material test samples one homogeneous state per material and prints, it does not compare implementations pointwise",
   [NLM, LIN, BDM], [("eval3D_stress / eval3D_vector of every material class", NLM)], MV, MNOTE),
 p("S09", "Material matrix is the derivative of the stress with respect to the strain",
   "For every material, implementation, point, level, parameter field and deformation, the returned 3x3 matrix is the exact derivative of the plane-stress second Piola-Kirchhoff stress with respect to the Green-Lagrange strain in the curvilinear basis. This includes undeformed states and states with equal principal stretches. The third-order tensor returned as derivative of the material matrix is half the derivative of that matrix with respect to the strain, for linear and incompressible materials.",
   ["inputs", "configurations"], "all materials, implementations, geometries, deformations, parameters, points and levels",
   "an inexact material tangent only degrades the convergence of Newton's method in some states",
   [NLM, LIN, BDM], [("eval3D_matrix and eval3D_dmatrix of every material class", NLM)], MV, MNOTE),
 p("S10", "Evaluation at a given deformation tensor agrees with evaluation at a surface",
   "Stress and material matrix evaluated for a prescribed in-plane deformation tensor at a point and level equal those of the same law for a deformed surface with that deformation tensor, and do not depend on the deformed surface currently attached to the material.",
   ["inputs", "configurations"], "all materials, implementations, deformation tensors, points and levels",
   "no stable test calls the variants at a given deformation tensor",
   [NLM, LIN, BDM], [("eval3D_matrix_C, eval3D_vector_C, eval3D_stress_C", NLM)], MV, MNOTE),
 p("S11", "Derived material outputs belong to the stress and deformation of their own point",
   "Principal stretches, stresses and strains and their directions, Cauchy stress, volume ratio, strain, deformation tensor and the Voigt transformation matrices between spectral, covariant, contravariant and Cartesian bases are, in the column of each point and level, exactly those of the stress and deformation of that point and level. Evaluating several points or levels at once gives the same as one by one.",
   ["inputs", "configurations"], "all materials, implementations, geometries, deformations, numbers of points and levels",
   "the tests never evaluate these outputs at several points and levels and compare",
   [NLM, LIN, BDM], [("eval3D_pstretch, eval3D_pstress, eval3D_pstrain, eval3D_CauchyStress, eval3D_detF, eval3D_deformation, transformations", BDM)], MV, MNOTE),
 p("S12", "Material data fields are evaluated at the right points of the right patch",
   "Thickness, surface mass density and material parameters are evaluated on the requested patch at the physical images of the requested parametric points, one column per point and one row per parameter; the surface mass density is the density times the thickness, and mid-surface principal stretches of compressible materials are those at height zero.",
   ["inputs", "configurations"], "all materials, patches, points and parameter fields",
   "tests use constant thickness, density and parameters on one patch",
   [BDM, NLM], [("density_into, thickness_into, parameters_into, pstretch_into", BDM)], MV, MNOTE),
 p("S13", "Integrated resultants are the thickness moments of the pointwise quantity",
   "For every material, the through-thickness integral of a stress, material matrix, Cauchy stress or principal quantity is its exact thickness moment of the requested order: the pointwise value times the height to that power, integrated from minus to plus half the local thickness. This holds whether the material is integrated numerically, is constant through the thickness or already returns integrated values, and every point gets the integral of its own column.",
   ["inputs", "configurations"], "all materials, output types, moments, points, thickness fields and numbers of quadrature points",
   "the tests only look at solutions of shells with constant thickness and a few materials",
   [INT], [("gsMaterialMatrixIntegrateSingle: eval_into, multiply and integrate variants", INT)], "abstract interpretation of the evaluator with an opaque material + algebraic value numbering",
   "The evaluator is interpreted from the source with the pointwise material as an uninterpreted polynomial in the height; the result is compared with the exact moment."),
 p("S14", "Each output type evaluates the quantity it names, with its dimension",
   "Every available output type (membrane and flexural stress, stress resultants, material matrices, principal quantities, stretches, transformations) of the pointwise and of the integrating evaluator returns the material quantity it is named after, at the requested level or with the moment that belongs to it, and the announced dimension of the output equals the number of rows that are evaluated.",
   ["inputs", "configurations"], "all output types, materials and points",
   "tests use three or four of about twenty output types",
   [EV, INT], [("eval_into and targetDim of the evaluators", EV)], "abstract interpretation of the dispatch + exhaustiveness over the output enumeration",
   "Every enumerator is enumerated for both evaluators; the reached material routine and moment are compared with a table of what each output means."),
 p("S15", "Evaluators use the material, patch and geometries they were built with",
   "The piece of an evaluator for a patch evaluates that patch's own material with that patch's index, on the undeformed and deformed geometry that were passed to the evaluator (or those of the material when none were passed), at the levels that were passed, for every number of patches and every constructor. Containers return for each patch the material that was added or set for it.",
   ["inputs", "histories"], "all constructors, numbers of patches, materials and sequences of container operations",
   "the tests mostly use one patch and one material",
   [EV, INT, "src/gsMaterialMatrixContainer.h"], [("constructors and makePiece of the evaluators", EV), ("gsMaterialMatrixContainer", "src/gsMaterialMatrixContainer.h")], "interprocedural abstract interpretation of object construction (points-to and field values)",
   "Object graphs after construction are computed from the source for 1 to 3 patches and the value of every field a piece evaluates with is compared with the constructor's argument."),
 p("S16", "Material evaluations in the weak forms see the intended configuration",
   "Materials are shared and remember the geometries they were last attached to; in every assembly, stress, norm and error computation every material quantity is nevertheless evaluated on the configuration it stands for: loads and linear stiffness on the undeformed geometry, stresses and tangents on the current deformed geometry, and mixed or buckling operators on the respective other state.",
   ["histories", "configurations"], "all assembly, output and error-estimation entry points and sequences of calls",
   "a wrong configuration is only visible when two different states are used in one call",
   [ASM, DWR, EV], [("evaluators constructed in the assemblers", ASM), ("evaluators constructed in the error estimator", DWR)], "typestate analysis of shared materials along every path (last attached configuration at each use)",
   "Typestate over all functions of the assembler and the error estimator: at every use of an evaluator the configuration its materials were last attached to is computed."),
 p("S17", "Residual is external minus internal virtual work",
   "The vector assembled at a displaced state is the virtual work of the loads minus that of the internal forces: body force per undeformed area, follower pressure along the current normal per undeformed area, elastic foundation opposing the displacement, stress resultants and moments times the variations of membrane strain and curvature, and boundary tractions per undeformed length; loads given in physical coordinates are evaluated at physical points. The linear load vector contains exactly the external part.",
   ["inputs", "configurations"], "all geometries, materials, displacements, loads and element families",
   "tests check one benchmark displacement per load type at most",
   [ASM], [("_assembleVector, _assembleBodyForce, _assemblePressure, _assembleFoundation, _assembleNeumann", ASM)], RI, ID_NOTE),
 p("S18", "Penalty terms are gradients of a positive penalty energy",
   "Weak displacement, clamping and interface conditions contribute exactly minus the gradient of half the penalty factor times the squared violation (prescribed displacement minus actual, change of the angle to the undeformed normal or across the interface, jump of the displacement), where the factor is the positive penalty option scaled with the material stiffness and element size. A state that satisfies the conditions therefore gets no force and a violating state is pushed back.",
   ["inputs", "configurations"], "all geometries, displacements, boundary and interface sets, penalty options and element families",
   "no stable test uses weak conditions",
   [ASM], [("weak boundary condition and interface terms", ASM)], RI, ID_NOTE),
 p("S19", "Point loads enter the right-hand side exactly once and only when set",
   "After any assembly of a load or residual vector the returned right-hand side is the vector assembled by that very call plus, for every point load currently set, its value times the basis functions at the point of application (parametric, or physical and then inverted) in the free degrees of freedom of the right patch and component. Loads that were removed, vectors of earlier assemblies and contributions assembled before or after the loads are neither kept nor lost, for tensor-product and mapped bases alike.",
   ["histories", "inputs"], "all sequences of setting loads and assembling, all numbers of loads, patches, components, bases and numberings",
   "tests use one point load or none, set once before one kind of assembly",
   [ASM], [("_applyLoads, rhs and every vector assembling entry point", ASM)], "abstract interpretation on a symbolic discretisation + typestate of the stored right-hand side",
   "The load routine is interpreted from its source on a symbolic discretisation with shared and eliminated degrees of freedom; a typestate analysis follows the stored right-hand side through every entry point and entry state."),
 p("S20", "Mass matrix is the inertia of the shell plus the point masses",
   "The assembled mass matrix is the undeformed-area integral of surface density times test times trial functions, with homogeneous supports, plus for every point mass its value times the products of the basis functions at its point in equal components; the lumped variant is the diagonal matrix of the row sums. The error estimator uses the mass matrix of the requested space.",
   ["inputs", "configurations"], "all geometries, densities, point masses, patches, bases and numberings",
   "the modal test only exercises the consistent matrix without point masses on one patch",
   [ASM, DWR], [("assembleMass, _applyMass", ASM), ("_assembleMass", DWR)], "algebraic value numbering of the integrand + abstract interpretation on a symbolic discretisation",
   "The integrand is compared with its definition, the point-mass routine is interpreted on a symbolic discretisation, and the stored matrix is followed through the routine."),
 p("S21", "The assembly status tells the truth",
   "Every assembling call returns success exactly when no part of the assembly failed and an error otherwise, the status that can be queried afterwards equals the returned one, a new assembler reports success, and no failure of an inner assembly is reported as success by the assembler or the error estimator (it is returned or thrown).",
   ["histories", "crash_points"], "all entry points, flags, goal functions and points of failure",
   "no test makes an assembly fail",
   [ASM, DWR], [("status returning functions", ASM), ("status returning functions", DWR)], "exception-aware typestate analysis of the status over all paths",
   "Every try block and every inner status-returning call is made to fail in turn; the status on all resulting paths is computed from the source."),
 p("S22", "Settings persist until they are changed and copies carry all of them",
   "Loads, pressure, foundation, boundary conditions, geometry, basis, materials, options and interface coupling change only through the setter that is named after them, which stores exactly its argument; assembling, changing options, reconstructing, evaluating or any other setter leaves them alone. Copying, moving or assigning an assembler transfers every data member from the same member of the source.",
   ["histories"], "all sequences of setters, assemblies, evaluations and copies",
   "tests set everything once and never copy an assembler or change options in between",
   [ASM, "src/gsThinShellAssembler.h"], [("all public members of gsThinShellAssembler", ASM)], "interprocedural effect (write-set) analysis",
   "Transitive write sets of all public functions, including mutating calls on members, against an ownership table; final values of all members after copy and move."),
 p("S23", "Solution vectors and displacement fields correspond degree by degree",
   "The displacement field of a solution vector has on every patch, basis function and component the vector's entry of that degree of freedom, or the prescribed value if it is eliminated; the deformed geometry is the undeformed one plus that field, the full vector lists free and prescribed values, and the vector of a displacement field restores exactly the entries the field was built from. This holds for shared degrees of freedom, several patches and mapped bases.",
   ["inputs", "configurations"], "all vectors, patches, components, boundary conditions, numberings and bases",
   "tests only look at solutions with homogeneous conditions on one or two patches",
   [ASM], [("constructMultiPatch, constructDisplacement, constructSolution, constructSolutionVector, fullSolutionVector", ASM)], "abstract interpretation on a symbolic discretisation",
   "The conversions are interpreted from their source on a symbolic discretisation with shared and prescribed degrees of freedom and compared with the definition."),
 p("S24", "Stress output fields return the named quantity of their own patch and state",
   "Each stress, strain, stretch, force or displacement output field of a shell returns, at every point of its own patch, the quantity its type names for the undeformed geometry, deformed geometry and materials it was built with: strain measures as tensor components in the local Cartesian frame, forces and moments as thickness integrals, stresses at the requested level, with the announced number of components. Constructing the stress field of a multi-patch shell yields one such field per patch.",
   ["inputs", "configurations"], "all output types, patches, geometries, deformations, materials, points and levels",
   "no stable test compares an output field with anything, and most types are never evaluated on a second patch",
   [FUN, ASM], [("gsShellStressFunction::eval_into and targetDim", FUN), ("constructStress", ASM)], "abstract interpretation of the output functions + algebraic value numbering",
   "Every output type is interpreted end to end (evaluator, expression, conversion) on random jets of two patches and compared with its definition; the announced dimension is compared with the evaluated rows."),
 p("S25", "Material evaluations do not influence each other",
   "The result of evaluating any output of a material depends only on the arguments of that call and on the data and geometries the material was given, never on what was evaluated before: another point, another patch, another deformation or another output. No evaluation changes the parameters, geometries, options or the underlying materials that other users of the same material see.",
   ["histories"], "all sequences of evaluations of all material classes, with shared materials",
   "materials cache point data in members that survive a call; tests evaluate one state per object",
   [BDM, NLM, LIN, TFT], [("per-point data cache of the materials", BDM), ("explicit tension field state", TFT)], "interprocedural effect (write-set) analysis + abstract interpretation of evaluation sequences",
   "Every evaluation reachable from the material interface is checked for writes outside the per-call cache, and each evaluation is interpreted again on the heap left behind by an earlier one at another patch or deformation; the results must be identical."),
 p("S26", "Tension-field material responds according to the state of the point",
   "A taut point returns the stress and matrix of the underlying material, a slack point the same scaled with the slack multiplier, and a wrinkled point the uniaxial tension response: strain corrected by the wrinkling strain along the wrinkling direction, stress consistent with it, Cauchy stress divided by the material's volume ratio, and a matrix that is the exact derivative of that stress including the rotation of the wrinkles. Wrinkling angle and strain stand in the column of their point and level, the explicit variant uses the state of the prescribed geometry, and other quantities are those of the underlying material.",
   ["inputs", "configurations"], "all underlying materials, deformations, wrinkling angles, points and levels",
   "the stable test of the tension field looks at the final displacement of one problem",
   [TFT], [("eval3D_stress, eval3D_matrix, eval3D_vector, eval3D_theta, eval3D_gamma of gsMaterialMatrixTFT", TFT)], MV,
   "The state and the wrinkling angle are inputs (the root search that finds the angle is not decided, see N03); everything computed from them is interpreted from the source over a prime field with the underlying material uninterpreted, and compared with the definition."),
 p("S27", "A material is what was asked for, however it was obtained",
   "A material obtained from a constructor, from the option-based factory getMaterialMatrix, by copying, assigning or cloning, or by writing it to XML and reading it back has the requested law, compressibility, implementation and dimension and exactly the thickness, density, parameters and geometries that were given, with every parameter in the slot of its name (E, nu, ratio, mu_i, alpha_i). Each setter changes the quantity it is named after and nothing else, and getters and has-queries report what is set. Combinations that do not exist are refused, not replaced.",
   ["configurations", "histories"], "all constructors, setters, copies, option combinations and XML-supported classes, for any functions",
   "tests construct a few materials through one constructor or the factory with two options, and never write or read one",
   ["src/gsMaterialMatrixBase.h", "src/gsMaterialMatrixXml.hpp", "src/getMaterialMatrix.h"], [("constructors and setters of the material classes", "src/gsMaterialMatrixBase.h"), ("getMaterialMatrix", "src/getMaterialMatrix.h"), ("gsXml of the materials", "src/gsMaterialMatrixXml.hpp")],
   "static analysis: abstract interpretation of constructors, setters, copy operations, factory and XML reader/writer over objects with identity, opaque function symbols and concrete XML trees",
   "Every class the library instantiates and every combination of options is enumerated; functions are opaque symbols, so the result holds for all of them. gsMaterialMatrixComposite is outside (it has no XML form and its factory branch cannot be reached); that a function itself survives XML belongs to the core library."),
 p("S28", "The dual load is the derivative of the goal functional",
   "For every goal functional (displacement, stretch, principal strain and stress, membrane and flexural strain and stress, membrane force, moment), taken as one component or as squared norm and over the domain, over marked boundaries or in points, the dual load vector assembled for a solution or deformed configuration is exactly the derivative of the value computeGoal returns, in every free degree of freedom of the space it is assembled on. Assembling the dual vector of the coarse space leaves that of the enriched space untouched and the other way round. This holds for shells, membranes and planar problems.",
   ["configurations", "inputs"], "all goal functionals, components, kinds of region, geometries, deformations and material tensors",
   "the tests assemble one goal in one example and compare an estimate with a threshold; whether a load vector is a derivative cannot be seen from its use",
   ["src/gsThinShellAssemblerDWR.hpp", "src/gsThinShellAssemblerDWR.h"], [("_assembleDual*, computeGoal", "src/gsThinShellAssemblerDWR.hpp")],
   "static analysis: abstract interpretation of the dual assembly and of the goal evaluation per goal, component and region; the integrands are denoted over the field of jets and compared with the Gateaux derivative as rational functions (identity testing)",
   "Principal directions are held fixed in the derivative of principal strains and stresses, as the implementation documents by using the frozen transformation; the derivative of the flexural stress uses the bending stiffness only. Planar problems raise an error in every goal function (the bending strains ask for a surface normal); that is recorded as a known finding, and the comparison for planar problems starts as soon as they can be evaluated."),
 p("S29", "The two discretisations of the error estimator are kept apart",
   "Every operation of the error estimator that is named after the coarse (L) or the enriched (H) space assembles on, and stores the matrix, mass matrix, primal load or solution of, that space only, and leaves everything stored for the other space untouched, in every order of calls. Every setting made through the estimator (boundary conditions, point loads, foundation, pressure, options, undeformed geometry) reaches the assemblers of both spaces and the copy the estimator itself evaluates.",
   ["histories", "configurations"], "all sequences of operations of the estimator and both spaces",
   "the tests run one fixed sequence in which a mix-up of the spaces changes a number, not an outcome",
   ["src/gsThinShellAssemblerDWR.hpp", "src/gsThinShellAssemblerDWR.h"], [("assemble*L/H, set*, updateBCs, construct*L/H", "src/gsThinShellAssemblerDWR.hpp")],
   "static analysis: interprocedural effect analysis (abstract interpretation with a symbolic store over both assemblers; per entry point, the set of members and of assembler operations touched is compared with the space named)",
   "Operations that raise an error are not constrained. Setting the spaces' bases themselves is done per space."),
 p("S30", "The error estimate is the residual weighted with the dual difference",
   "computeError returns the residual of the primal problem (body force, Neumann boundary force and point loads minus, in nonlinear problems, the internal forces of the deformed configuration) in the direction of the difference of the enriched and the coarse dual solution, for shells, membranes and planar problems; the element errors sum to the same value, a point load being shared by the elements of its own patch that contain its point, and the squared variants integrate the square of the same density. The eigenvalue estimates of modal and buckling analyses integrate K(u,z) - lambda B(u,z) + (lambda_H - lambda_L) B(u,u) and subtract lambda_H - lambda_L, with the linear stiffness K and the mass or geometric stiffness B of the assembler, and matrixNorm integrates B(u,z).",
   ["inputs", "configurations"], "all geometries, solutions, material tensors, loads and eigenvalues",
   "the tests evaluate one estimate of one problem against a threshold",
   ["src/gsThinShellAssemblerDWR.hpp", "src/gsThinShellAssemblerDWR.h"], [("computeError*, computeErrorEig*, matrixNorm", "src/gsThinShellAssemblerDWR.hpp")],
   "static analysis: abstract interpretation of every entry point; the integrands are denoted over the field of jets and compared with the residual as rational functions (identity testing); point loads on a model of two patches with edges",
   "Problems without pressure and elastic foundation (the implementation has these terms commented out); element-wise and squared variants without Neumann boundary. Whether Neumann boundaries count when the estimate is asked for without loads is left open."),
 p("S31", "Interface couplings and penalty options take effect as set",
   "An interface handed to addStrongC0, addStrongC1, addWeakC0, addWeakC1 or addUncoupled is treated in that way and in no other; initInterfaces gives each remaining interface of the topology the default coupling of the option IfcDefault exactly once (weak C0, weak C1 or none), however often it is called. In every system assembled afterwards each weak condition is scaled with the value its own option (WeakDirichlet, WeakClamped, IfcPenalty) has at that moment, and is assembled whenever its set of sides or interfaces is not empty, whatever the other sets are.",
   ["histories", "configurations"], "all assignments of interfaces, orders of calls, option values and public assembly entry points",
   "the tests use single-patch geometries or one default coupling with default penalties",
   [ASM], [("addStrongC0, addWeakC1, ..., initInterfaces", ASM), ("_getOptions, _assembleWeakBCs, _assembleWeakIfc", ASM)],
   "static analysis: abstract interpretation of the setters and initInterfaces over a model topology with known containers; dataflow extraction of every weak integral with its guards and coefficients, options followed from the option list to the integrand",
   "Strong couplings are only recorded by the assembler; gluing the basis is the caller's business."),
 p("S32", "Reported measures are the quantities they are named after",
   "getArea is the integral of the area element of the geometry given; getDisplacementNorm the root of the integral of the squared displacement over the area; getElasticEnergy half the work of the internal forces on the displacement. interfaceErrorC0 and interfaceErrorG1 are the roots of the integrals of the squared jump of the position and of the unit normal, interfaceErrorNormal, interfaceErrorGaussCurvature and interfaceErrorMeanCurvature the largest absolute jump, over the interfaces given or all interfaces of the geometry. computePrincipalStretches and computePrincipalStresses return one column per point, for the deformed configuration and height given.",
   ["inputs"], "all geometries, deformations, interface sets, evaluation points and heights",
   "no test evaluates these measures",
   [ASM], [("getArea, getDisplacementNorm, getElasticEnergy", ASM), ("interfaceErrorC0, ..., interfaceErrorMeanCurvature", ASM), ("computePrincipalStretches, computePrincipalStresses", ASM)],
   "static analysis: dataflow extraction of integrand, integration set and returned value of each measure; the integrand compared with the documented one as a rational function of the jets of both configurations on both sides",
   "The energy is a known finding. Area elements of either configuration are accepted in the displacement norm."),
 p("S33", "A sum of function sets is the sum of its parts, piece by piece",
   "A gsFunctionSum built from any number of function sets has one piece per piece of its summands, in order; value, first and second derivatives and all derivatives up to an order of piece k are the sums over all summands of those of their piece k, at the points given and whatever the result contained before. Its support encloses exactly the supports of the summands.",
   ["inputs"], "all numbers of summands and pieces, all points and orders of derivatives",
   "no test uses sums of function sets",
   ["src/gsFunctionSum.h"], [("gsFunctionSum constructors, gsFunctionPieceSum::eval_into, deriv_into, deriv2_into, evalAllDers_into", "src/gsFunctionSum.h")],
   "static analysis: abstract interpretation of constructors and evaluation routines over free values of the summands; results compared as polynomials in these",
   "One to four summands with one to three pieces; the loops treat all summands alike."),
 p("S34", "The estimation helper solves each dual problem on its own space",
   "gsThinShellDWRHelper::computeError assembles the matrix of each space at the deformed configuration given, solves it for the sum of exactly the requested dual loads of that space (interior if asked for, marked boundaries and points if any), and stores the error, element errors and squared element errors the estimator returns for these two dual solutions, the same configuration and the same choice of loads. errors, absErrors and sqErrors return these, or their magnitudes relative to the error or its square.",
   ["inputs", "configurations"], "all combinations of goals, boundaries, points, loads and normalisation",
   "no test uses the helper",
   ["src/gsThinShellDWRHelper.h"], [("computeError, errors, absErrors, sqErrors", "src/gsThinShellDWRHelper.h")],
   "static analysis: abstract interpretation of the helper over free matrices, dual loads, solutions and estimates",
   "The overload taking a solution vector does not compile and is not covered."),
]
NA = [
 na("N01", "Solutions converge to the exact solution under refinement",
   "For smooth problems the discretisation error of displacements, frequencies and buckling loads decreases with the optimal order of the spline degree under mesh refinement.",
   ["inputs"], "all smooth problems, meshes and degrees", "tests run one mesh per problem",
   [ASM], [("assembled systems", ASM)],
   "a statement about the limit of numerical solutions: approximation theory and the solution of linear systems, nothing in the source's structure bounds it (consistency of the assembled forms, its local part, is decided by S01-S03 and S17)"),
 na("N02", "Error estimates approximate the true error of the goal",
   "The dual-weighted residual estimate and its element-wise distribution approach the true error of the goal functional as the mesh is refined.",
   ["inputs"], "all problems, goals and meshes", "tests evaluate one problem",
   [DWR], [("computeError*", DWR)],
   "the effectivity of an estimator is a numerical quantity; only the consistency of its ingredients is visible in the source (S28-S30)"),
 na("N03", "The wrinkling angle search returns an admissible root",
   "For every wrinkled strain state the search for the wrinkling direction terminates and returns the root of the wrinkling condition with positive tension and wrinkling strain.",
   ["inputs"], "all wrinkled states", "tests sample few states",
   [TFT], [("findRoot, findRootBisection, findRootBrent", TFT)],
   "termination and success of a floating-point root bracketing depend on runtime values; no sound static bound in reach. What is computed from the angle is decided by S26"),
 na("N04", "The plane-stress iteration of compressible materials converges",
   "For every admissible deformation the Newton iteration for the thickness stretch terminates within its iteration limit at zero transverse stress.",
   ["inputs"], "all compressible laws, parameters and deformations", "tests sample few states",
   [NLM], [("_eval3D_Compressible_*, iteration on C33", NLM)],
   "convergence of a floating-point Newton iteration depends on runtime values. The iteration's fixed point and the quantities computed from it are decided by S08-S11"),
 na("N05", "Floating-point results are accurate to rounding",
   "Results of assembly and material evaluation differ from exact arithmetic by a small multiple of machine precision, also close to equal principal stretches and for very thin shells.",
   ["inputs"], "all inputs", "tests use tolerances of one problem",
   [NLM, UT], [("closed formulas and the switch for equal stretches", NLM)],
   "rounding-error bounds depend on magnitudes of runtime values; all checks here decide identities in exact arithmetic"),
]
