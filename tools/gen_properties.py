#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))
NL="src/gsMaterialMatrixNonlinear.hpp"; LIN="src/gsMaterialMatrixLinear.hpp"; BD="src/gsMaterialMatrixBaseDim.hpp"
TFT="src/gsMaterialMatrixTFT.hpp"; COMP="src/gsMaterialMatrixComposite.hpp"; INT="src/gsMaterialMatrixIntegrate.hpp"
EV="src/gsMaterialMatrixEval.hpp"; AS="src/gsThinShellAssembler.hpp"; DWR="src/gsThinShellAssemblerDWR.hpp"; UT="src/gsThinShellUtils.h"
CONT="src/gsMaterialMatrixContainer.hpp"; XML="src/gsMaterialMatrixXml.hpp"; GET="src/getMaterialMatrix.h"; FUN="src/gsThinShellFunctions.hpp"
p("C01","Stress follows the documented strain-energy law under plane stress",
 "At every point, height through the thickness and deformation state, the second Piola-Kirchhoff stress a material returns is the derivative of the strain energy documented for the selected law (Saint-Venant Kirchhoff, neo-Hookean, extended neo-Hookean, Mooney-Rivlin, Ogden; compressible or incompressible) with respect to the in-plane Green-Lagrange strain, with the through-thickness stretch chosen so that the transverse normal stress vanishes (and, if incompressible, volume is preserved). The analytical, generalized and spectral implementations of one law return the same stress, it is zero in the undeformed state, and it reduces to linear elasticity with the given Young's modulus and Poisson's ratio for small strains.",
 ["inputs","configurations"],"all laws x compressibility x implementation x dimension (planar, surface), all positive-definite deformations, all material parameters, all (skewed, curved) parametrisations, all heights in the thickness",
 "The material test runs one deformation and compares nothing against an energy; the examples only check that they exit 0.",
 [NL,LIN,BD,GET],[("dPsi / Sij / _evalNonlinear_..., Newton iteration on the thickness stretch",NL),("linear law",LIN),("metric at height z",BD)],["vector evaluation at (point, height)","strain-driven vector evaluation"])
p("C02","The material tangent is the derivative of the stress and is symmetric",
 "For every material law and implementation the material matrix returned at a point equals the derivative of the stress returned at that point with respect to the in-plane Green-Lagrange strain (in the Voigt ordering 11, 22, 12), including the plane-stress condensation, and is therefore symmetric. The strain-driven evaluations (matrix, stress and matrix derivative for a given right Cauchy-Green tensor) are the same functions as the geometry-driven ones.",
 ["inputs","configurations"],"all laws x compressibility x implementation x dimension, all admissible deformations including (near-)equal principal stretches, all parametrisations and heights",
 "No test compares the tangent with differences of the stress; a wrong tangent still converges in the examples, only slower.",
 [NL,LIN],[("Cijkl, static condensation, spectral tangents with coincident stretches",NL),("linear matrix",LIN)],["matrix / matrix-at-C / matrix-derivative evaluations"])
p("C03","Thickness integration yields the exact stress resultants and stiffnesses",
 "The integrated stress resultants (membrane force, bending moment) and the integrated stiffness blocks (membrane, coupling, bending) are the 0th, 1st and 2nd moments through the thickness, from -t/2 to +t/2 at the local thickness t, of the pointwise stress and tangent. This holds for constant, linear and general through-thickness behaviour, for every number of evaluation points in one call, and for thicknesses and material parameters that vary over the surface and between patches.",
 ["inputs","configurations"],"all materials, thickness fields, parameter fields, point sets, patches, deformations",
 "The examples integrate, but nothing compares the integral with the pointwise values; only one thickness and one point layout are used.",
 [INT,"src/gsMaterialMatrixIntegrate.h",LIN,CONT],[("eval_into_impl, integrateZ_into, multiplyZ_into, multiplyLinZ_into",INT)],["integrated vector N/M and matrix A/B/C/D functions"])
p("C04","Laminates follow classical lamination theory",
 "A laminate's membrane, coupling and bending stiffness are the thickness-moments of its plies' plane-stress stiffnesses, each ply at its place in the stacking order (the first ply outermost on the side of the surface normal) and rotated by its own angle (in the tangent plane, from the first parametric direction), and its force and moment resultants are those stiffnesses applied to membrane strain and curvature change. In particular a laminate of identical isotropic plies behaves as one homogeneous layer of the total thickness, a symmetric stack has no membrane-bending coupling, and total thickness and areal mass are the sums over plies.",
 ["inputs","configurations"],"all ply counts, thicknesses, angles, orthotropic parameters, geometries and deformations",
 "No running test uses the composite material at all.",
 [COMP,"src/gsMaterialMatrixComposite.h"],[("eval3D_matrix, eval3D_vector, ply transformation",COMP)],["integrated vector and matrix of a composite"])
p("C05","Tension field: taut unchanged, wrinkled uniaxial, slack stress-free",
 "The tension-field wrapper classifies every point as taut, wrinkled or slack by the signs of the principal stresses and strains (by strain, by stress, or mixed, as configured on the wrapped material). Where taut it returns exactly the stress, strain and tangent of the wrapped material; where slack it scales them by the configured slack factor; and where wrinkled (smallest principal stress negative, largest principal strain positive) the returned stress is the wrapped material's stress relaxed by a non-negative contraction along the wrinkling direction such that no normal or shear stress is left across the wrinkles (it is uniaxial, and tensile for the linear law), and the returned tangent is the derivative of the returned stress. The reported wrinkling angle and strain are the ones used; thickness, density and thickness integration are those of the wrapped material; with the explicit option the classification is that of the frozen geometry.",
 ["inputs","configurations"],"all wrapped linear and nonlinear materials, all in-plane deformations, all classification options, any number of points and heights",
 "The wrapper is not exercised by the stable tests; wrinkled states need specific biaxial compression/tension combinations.",
 [TFT,"src/gsMaterialMatrixTFT.h",NL,LIN,BD],[("eval3D_vector/matrix, _compute_*, theta root finding, tension field",TFT),("eval3D_tensionfield",BD)],["vector, matrix, tension-field, theta and gamma evaluations"])
p("C06","Principal and transformed quantities describe the same tensors",
 "Reported principal stretches are the square roots of the eigenvalues of the deformation tensor with orthonormal principal directions (the third being the unit normal), the through-thickness stretch included; principal strains, Piola-Kirchhoff and Cauchy stresses with their directions reconstruct the tensors the material reports at that same point and height; the transformation matrices, applied to the components of a tensor in the covariant, contravariant or Cartesian basis, give the components of the same tensor in the spectral respectively covariant/contravariant basis; and the Cauchy stress is the Piola-Kirchhoff stress pushed forward by the deformation gradient (components on the deformed basis divided by the volume ratio, thickness stretch included for compressible laws; in-plane ratio for the linear law). Every evaluator object, however it was constructed (from one material, a material per patch, with or without a deformed geometry), reports for several points at once what it reports for each of them alone, mid-surface stretches included.",
 ["inputs","configurations"],"all geometries, deformations (equal stretches, pure shear, rigid motion included), materials, numbers of points and heights",
 "Only exercised for plotting; no test compares values.",
 [BD,NL,LIN,EV],[("_evalStretch, _evalPStress, eval3D_stretch/pstress/..., transformation matrices",BD)],["stretch, principal stress/strain, transformation and Cauchy evaluations"])
p("C07","The assembled tangent is the derivative of the assembled residual",
 "For every deformed state the assembled matrix is minus the derivative of the assembled residual (right-hand side) with respect to the free degrees of freedom, for membrane and bending shells and planar geometries, single or multiple patches, pressure, elastic foundation, point loads, prescribed boundary values, weak boundary and weak interface conditions. (Exact for the linear Saint-Venant Kirchhoff material and for all materials in planar problems; for hyperelastic materials on curved surfaces the tangent is the documented one - thickness-integrated tangents times the variations of the mid-surface strains plus the geometric part - and is judged against that form.) At the undeformed state the linear and the nonlinear assembly give the same matrix and right-hand side, and the matrix is symmetric whenever loads are conservative.",
 ["inputs","configurations"],"all geometries, deformed states, materials, boundary conditions, loads, bases",
 "The examples converge (or stop) also with an inexact tangent; no test differentiates the residual.",
 [AS,UT,INT],[("assembleMatrix_impl, assembleVector_impl, _assembleWeakBCs, _assembleWeakIfc, _assemblePressure, _assembleFoundation",AS),("variation expressions",UT)],["assembled matrix and right-hand side"])
p("C08","Internal forces are the gradient of the shell's stored energy",
 "The internal part of the assembled residual equals the derivative, with respect to every degree of freedom, of the membrane-plus-bending strain energy of the Kirchhoff-Love shell (or of the membrane / planar energy when bending is disabled) integrated over the undeformed surface with each patch's own material, thickness and parameter fields; the linear stiffness matrix is that energy's Hessian at rest, and the matrix assembled for the mixed integration point method takes the material stiffness and the variations from the stated states (stresses linearised from the previous state along the update). Consequently rigid motions of the deformed configuration produce no change and no net internal force.",
 ["inputs","configurations"],"all geometries (curved, skewed, rational, multi-patch), deformations, materials per patch, thickness/parameter fields",
 "Tests check exit codes of a few geometries only.",
 [AS,UT,INT,CONT],[("internal force expressions",AS),("variation expressions",UT)],["assembled right-hand side without loads"])
p("C09","External loads contribute exactly their virtual work",
 "Each external load (surface force in 2D/3D, edge traction, follower pressure, elastic foundation, point loads given in parametric or physical coordinates) adds to the residual exactly its virtual work on each basis function, integrated over the stated configuration, so contributions of several loads add up and the total force and moment equal those of the prescribed load. A pressure or foundation given to the separate assembly calls is added to the system present, with the same values. Re-setting or removing a load takes effect at the next assembly.",
 ["inputs","configurations","histories"],"all loads and combinations, geometries, deformed states, multi-patch models, orders of setting loads",
 "No test compares the assembled load vector with an independent integral.",
 [AS],[("_assembleForce, _assembleNeumann, _assemblePressure, _assembleFoundation, _applyLoads",AS)],["assembled right-hand side"])
p("C10","Mass matrices are consistent, positive and conserve mass",
 "The assembled mass matrix is symmetric positive definite and equals the integral over the undeformed surface of density times thickness times products of basis functions; a rigid translation carries exactly the structure's total mass. The lumped variant is diagonal, with the same total mass per direction.",
 ["inputs","configurations"],"all geometries, density and thickness fields, laminates, patches, boundary conditions",
 "Only used inside one modal example whose values are not compared.",
 [AS,"src/gsMaterialMatrixBase.h",INT],[("assembleMass, density integration",AS)],["assembled mass matrix"])
p("C11","Boundary conditions and solution reconstruction are faithful",
 "A deformed geometry or displacement reconstructed from any solution vector satisfies the strongly imposed conditions exactly: prescribed displacement components on their sides and corners, equal displacement along collapsed/coupled sides, clamped second control row. Mapping a solution vector to a displacement or deformed geometry and back is the identity, free degrees of freedom are unaffected by the conditions, and the linear system solved with inhomogeneous conditions gives the field obtained by direct minimisation of the constrained energy.",
 ["inputs","configurations"],"all boundary-condition types, sides, components, values, multi-patch layouts, solution vectors",
 "Tests cover a handful of layouts and never check the reconstruction.",
 [AS],[("_assembleDirichlet, constructSolution, constructDisplacement, constructSolutionVector, updateBCs",AS)],["reconstructed geometry, dof count, assembled system"])
p("C12","Multi-patch coupling is consistent with a single patch",
 "Splitting a surface into patches and coupling them strongly gives the same energy, internal and external forces and mass as the unsplit surface for every displacement both can represent. Weak interface coupling vanishes (in residual) for displacements and rotations that are continuous across the interface, penalises jumps and relative rotations quadratically and positively, and, for patches of equal material and parametric speed, does not depend on which patch is named first, on patch numbering, or on the orientation of the patches' parametrisation.",
 ["inputs","configurations"],"all splittings, orientations, orderings, displacement fields, penalty values",
 "Stable tests use single patches or one fixed multipatch file.",
 [AS,UT,CONT],[("_assembleWeakIfc, addWeakC0/C1, initInterfaces, getAssembler space set-up",AS)],["assembled matrix/right-hand side, interface lists"])
p("C13","Results do not depend on the choice of frame, parametrisation or refinement",
 "Rotating or translating geometry, deformation and vector loads together rotates the assembled forces and leaves energies, principal quantities and reaction forces unchanged; exchanging or reversing the parameter directions, and refining or degree-elevating geometry and basis, leaves the discrete forces on corresponding functions unchanged.",
 ["inputs","configurations"],"all rotations, translations, re-parametrisations, knot insertions, degree elevations; all materials",
 "Needs pairs of runs; tests evaluate single runs.",
 [AS,BD,UT],[("covariant metric formulation",BD),("variation expressions",UT)],["assembled vectors/matrices, material evaluations"])
p("C14","Results depend on current inputs only, not on call history or copies",
 "Assembling the same configuration again, in any order relative to other assemblies, loads, states, options or evaluations, on a copied, assigned or moved assembler, or with a material shared with another assembler or evaluator, gives the same matrices, vectors and evaluations as a freshly created assembler would. Changing a geometry, load, boundary condition, material or option takes effect fully at the next assembly.",
 ["histories"],"all sequences of public operations on one or several assemblers sharing bases and materials",
 "Tests execute one fixed call sequence each.",
 [AS,"src/gsThinShellAssembler.h",BD,INT,EV],[("assembler state reset, option propagation, copy operations, material geometry caches",AS)],["assembled matrix and vector along random operation sequences"])
p("C15","Parallel assembly is race-free and thread-count independent",
 "When built with threading enabled, assembling matrices, vectors, masses, pressure terms, goal functionals and duals with any number of threads gives the same result as with one thread (up to floating-point summation order), evaluating one material evaluator (plain, laminate, tension field) from several threads gives what it gives from one, and none of this has a data race in the module's code.",
 ["schedules"],"all thread counts and interleavings of the element loop, all materials and loads",
 "The tests are built without threading.",
 [BD,AS,INT,"src/gsMaterialMatrixBaseDim.h",COMP,TFT,NL],[("per-thread caches of metric data",BD)],["assembled objects under 1..8 threads","race detector"])
p("C16","Goal functionals, their derivative and their values are consistent",
 "For shells and membranes in 3D and every goal functional of gsThinShellAssemblerDWR (displacement; squared principal stretch; principal strain; principal stress; covariant membrane strain, contravariant membrane stress, membrane force; flexural strain, stress, moment), each component (0, 1 or 2; 0 or 1 for principal quantities) or the squared norm (component 9), on the whole domain (area integral), on boundary sides (arc-length integral) or at points of the first patch (weighted with the undeformed area element), computeGoal returns that integral or sum for the given deformed geometry, and the assembled dual right-hand side, on the coarse and on the enriched level, is its directional derivative with respect to the free displacement coefficients of that level. (The derivative is meant where it exists: distinct principal values; for force and moment goals, the linear material.)",
 ["inputs","configurations"],"all goals x components x domain kinds x geometries x deformed states x materials",
 "The examples print goal values but never differentiate them or compare to an integral.",
 [DWR],[("_assembleDual (domain, boundary, points), computeGoal",DWR)],["dual vectors and goal values"])
p("C17","Dual-weighted residual estimates are exact where theory says so, and additive",
 "computeError(dualL,dualH,deformed,withLoads=true) equals the residual of the deformed state (surface force given in physical coordinates, boundary traction and point loads minus the virtual work of the membrane forces and, for shells, moments) tested with dualH-dualL on the enriched quadrature; computeError(dualL,dualH,true) is its value at rest, the external work. The element-wise variant returns, per element of the enriched basis (patch after patch), the domain part of that residual plus the point loads, shared by the elements of the loaded patch that contain the point; the squared variants integrate the square of the domain integrand; error(), errors(), absErrors() return what was computed last. The stiffness matrices, tangents, (lumped) masses, load and residual vectors of both levels are those of the plain assembler on the basis of that level. For a linear problem and a linear goal the estimate is exact: with the enriched dual solution (and zero coarse one) it is the goal of the enriched solution, and gsThinShellDWRHelper returns the difference of the goal between enriched and coarse solution, its element values summing to it without tractions.",
 ["inputs","configurations"],"planar, membrane and shell models, all geometries, materials, boundary conditions, dual fields, deformed states on either level",
 "The examples print effectivity indices without checking.",
 [DWR,"src/gsThinShellDWRHelper.h"],[("computeError, computeErrorElements, computeSquaredError, level matrices, helper",DWR)],["error values, indicator vectors, level matrices"])
p("C18","Eigenvalue error estimates (modal, buckling) match their definition",
 "For shells of the linear material with modal goal, computeErrorEig equals K(u,zH-zL) - lambda_u M(u,zH-zL) + (lambda_zH-lambda_zL)(M(u,u)-1), K the linear stiffness and M the mass form; with buckling goal K(u,zH-zL) - lambda_u G(u,zH-zL) + (lambda_zH-lambda_zL)(G(u,u)-1), G the tangent stiffness at the given deformed geometry minus K; the element-wise variants are the integrands over the elements of the enriched basis, and matrixNorm is M(u,z) respectively G(u,z).",
 ["inputs","configurations"],"all mode shapes and eigenvalues, geometries, thickness and parameter fields, pre-buckling states",
 "The modal and buckling examples print the numbers only.",
 [DWR],[("computeErrorEig, matrixNorm, assembleMatrix/Mass on both levels",DWR)],["eigenvalue estimates and matrices"])
p("C19","Materials survive storage: what is read back behaves as what was written",
 "A material that can be written to XML (linear; analytical neo-Hookean, extended neo-Hookean and Mooney-Rivlin; Ogden; each of them inside a tension-field wrapper), with thickness, parameters and density given by expressions or constants (constants of up to six decimals, the precision the core stores), read back from its file gives the same stress, tangent, thickness, density and parameters at every point as the original; so does a file written by hand with its elements in any order, and a container file gives each of its patch indices the material named there. The factory, the constructors with and without geometry or density, and the setters build a material that behaves like the one constructed directly with the same law, compressibility, implementation and fields, and combinations that do not exist are refused (exception or no material) rather than mapped to another material. A container returns for each patch the material set for it: its own copy if given a reference, the same object if given a pointer.",
 ["inputs","configurations"],"all material kinds, parameters, densities, thickness functions, ids",
 "No stable test reads or writes a material.",
 [XML,GET,CONT,LIN,NL],[("XML get/put for materials and containers",XML),("factory",GET)],["write-read-evaluate round trip"])
p("C20","Post-processing fields and global measures report the actual state",
 "Stress, strain, stretch and force fields constructed for output return, at every point of every patch, the values of the corresponding local quantity there (Cartesian/principal components of that patch's own material and geometry), and global measures equal their definitions: area, root-mean-square displacement, elastic energy (half the work of the force and moment resultants on membrane strain and curvature change), the internal force on the control points of any set of sides, and the gaps in position, unit normal and curvature over interfaces. The forces on the supported sides balance the external loads of an equilibrated state.",
 ["inputs","configurations"],"all output types, patches, points, geometries, deformed states",
 "Output is only plotted.",
 [FUN,AS,EV,"src/gsThinShellFunctions.h"],[("piecewise stress functions",FUN),("getArea, boundaryForce, interface errors",AS)],["field evaluations per patch; scalar measures"])
p("C21","Valid use never corrupts memory, reads garbage or trips undefined behaviour",
 "Running any combination of valid geometry, material, load, boundary and evaluation requests through the public interface performs no out-of-bounds or use-after-free access, no read of uninitialised results, no leak of memory, no undefined arithmetic and trips no internal consistency assertion, and no process dies.",
 ["inputs","histories","configurations"],"all valid uses of assemblers, materials, evaluators, error estimators, including copies and temporaries",
 "The tests run without sanitizers and with a few configurations.",
 [AS,DWR,NL,LIN,TFT,COMP,BD,EV,INT,CONT,XML,FUN],[("ownership by shared pointers and memory management of fields",AS)],["address/undefined-behaviour/leak sanitizers and valgrind memcheck over all workloads"])
p("C22","A failing evaluation is reported and leaves nothing behind",
 "When evaluating any of the functions an assembly depends on (thickness, material parameters, density, surface force, edge traction, pressure, foundation stiffness, weakly prescribed displacement) fails at any of its evaluations during the assembly, or the plane-stress iteration of a compressible material does not converge, the request returns a status other than success (or throws), status() agrees with what the request returned, and afterwards the same assembler behaves as a freshly created one: later valid requests succeed and give the same matrices, vectors, masses and reconstructed geometries.",
 ["inputs","fault_sequences","histories"],"every request of the assembler, every function it evaluates, failure at any evaluation, any requests before and after",
 "Tests only run configurations in which nothing fails.",
 [AS,"src/gsThinShellAssembler.h",INT,NL],[("try/catch and m_status in assemble, assembleMatrix, assembleVector, assembleMass, assemblePressure*, assembleFoundation*",AS)],["returned status, status(), results after a failure"])
p("C23","Spaces of mapped (unstructured spline) functions give the restricted system",
 "When the space is set to mapped functions (setSpaceBasis with a gsMappedBasis: each function a linear combination of the patches' functions), everything assembled (linear stiffness, right-hand side with all loads, tangent, residual, mass with point masses, weak boundary and interface terms) is what the patches' own functions give, combined with the same coefficients; the displacement and the deformed geometry reconstructed from a solution vector are that combination of the patches' functions, and strongly fixed sides eliminate exactly the functions that do not vanish there. The lumped mass is the row sum where the functions sum to one.",
 ["inputs","configurations"],"all coefficient matrices (separate, glued, mixed, scaled, permuted, fewer functions than the patches have), geometries, materials, loads, conditions, deformed states",
 "No stable test uses a mapped space.",
 [AS,"src/gsThinShellAssembler.h"],[("setSpaceBasis, _assembleDirichlet, _applyLoads, _applyMass, constructSolution, _constructSolution for mapped spaces",AS)],["assembled systems and reconstructed geometries"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
