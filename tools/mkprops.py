#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of the property texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/lib/"
E = "src/lib/elements/"
M = "src/lib/math/"

P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), technique="", note="", hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook),
                  _technique=technique, _note=note))


prop("P01", "Linear static solution equals the independently assembled FE solution",
     "For every well-posed linear model built from any mix of the linear element types (truss, tetrahedra for mechanics and for heat, plane triangle, thermal quad with surface conditions, spring and interface elements), with any prescribed values, nodal loads and linear multi-point constraints, the solved nodal values equal those of the textbook finite element system for that model, up to rounding. Prescribed values are reproduced exactly and repeated loads on one degree of freedom add up.",
     ["inputs", "configurations"],
     "all meshes, element types, materials, boundary values, loads and constraint sets of a well-posed linear model",
     "The tests solve five fixed meshes with one element type each and compare with stored numbers; mixes of types, non-zero prescribed values together with loads, constraints, other orientations or sizes are never run.",
     [L + "FESolver.cpp", L + "FEStorage.cpp", E + "TRUSS3.cpp", E + "TETRA0.cpp", E + "TETRA1.cpp", E + "TRIANGLE4.cpp", E + "QUADTH.cpp", E + "INTER0.cpp", E + "INTER3.cpp"],
     [("linear solution procedure: elimination of constrained DoFs, saddle system with MPCs", L + "FESolver.cpp LinearFESolver::solve"),
      ("element assembly", E + "*.cpp buildK"), ("global assembly", L + "FEStorage.cpp assembleGlobalEqMatrices")],
     state=[("U", "solution vector ordered constrained | unknown | multipliers", L + "FEStorage.h"), ("K", "2x2 block symmetric sparse matrix", L + "FEStorage.h")],
     observe=["FEStorage::getNodeDofSolution after solve()"],
     technique="differential PBT: generated models vs an independent dense FE reference (Eigen)",
     note="Generated models up to ~60 nodes (plus large ones through P18); oracle is a separately written dense FE assembly with its own shape functions and constraint elimination.")

prop("P02", "Reactions equilibrate the applied loads; free DoFs report the applied load",
     "After any linear solution the reaction reported at every prescribed degree of freedom is exactly the force that has to act there for equilibrium of the discrete system, so that without constraints coupling to ground all forces and moments (or heat flows) acting on the body sum to zero. Querying a non-prescribed degree of freedom returns the total external load put on it, and one that no element uses returns zero.",
     ["inputs"], "all linear models with loads, non-zero supports, initial strains, thermal sources and constraints",
     "No test of the linear solver reads a reaction for a general state; they only compare displacements or temperatures on fixed meshes.",
     [L + "FESolver.cpp", L + "FEStorage.cpp", L + "FEStorage.h"],
     [("reaction recovery", L + "FESolver.cpp LinearFESolver::solve (vecRc)"), ("reaction query", L + "FEStorage.cpp getReaction")],
     observe=["FEStorage::getReaction(node, dof)"],
     technique="PBT: balance invariants (force, moment, heat) plus differential reactions from the dense reference",
     note="Exploration over generated models; sums are exact up to rounding scaled by the magnitude of the contributions.")

prop("P03", "Numbering, ordering and frame of the model do not change the answer",
     "Renumbering nodes, reordering elements, boundary conditions and constraints, or changing the starting node of an element's connectivity in a shape-preserving way leaves the physical solution (values, reactions and element results) unchanged. Rigidly rotating and translating a three-dimensional model with its loads rotates the displacements and reactions, superposition of load cases superposes solutions, and solving the same unchanged linear model again from a fresh storage gives the same answer.",
     ["inputs", "histories"], "all permutations of the input and all rigid motions of the model",
     "Tests use one numbering and one orientation per mesh.",
     [L + "FEStorage.cpp", L + "FESolver.cpp", L + "Dof.cpp", M + "SparseMatrix.cpp"],
     [("equation numbering", L + "FEStorage.cpp assignEquationNumbers"), ("symmetric storage of entries", M + "SparseMatrix.cpp")],
     observe=["FEStorage::getNodeDofSolution", "FEStorage::getReaction", "Element::getTensor/getVector/getScalar"],
     technique="metamorphic PBT: permuted, rotated, translated and superposed copies of generated models",
     note="Metamorphic relations between two real runs; no reference model needed.")

prop("P04", "Linear elements reproduce constant strain and constant gradient states exactly",
     "When every boundary node of an arbitrary mesh of linear mechanical (tetrahedron, plane triangle, truss) or thermal (tetrahedron, quad) elements is given the values of a linear field, the interior follows that field and every element reports its exact constant strain, stress, temperature gradient or heat flux and its exact volume. Stress follows isotropic Hooke's law in three dimensions and in plane stress and plane strain.",
     ["inputs"], "all linear fields, all valid distorted meshes, all material constants",
     "The tests check one stress state on one mesh; distorted meshes and general fields are not sampled, and no test reads plane triangle results at all.",
     [E + "TETRA0.cpp", E + "TETRA1.cpp", E + "TRIANGLE4.cpp", E + "TRUSS3.cpp", E + "QUADTH.cpp"],
     [("strain recovery", E + "*.cpp update"), ("constitutive matrix", E + "TETRA0.cpp makeC"), ("element volume", E + "TETRA0.cpp buildK")],
     observe=["Element::getTensor", "Element::getVector", "Element::getScalar"],
     technique="PBT patch test: analytic fields on generated distorted meshes",
     note="Analytic oracle; meshes are generated distorted structured grids and fans.")

prop("P05", "Element matrices are symmetric, passive and blind to rigid motion",
     "The global stiffness (or conductivity) matrix assembled for any mesh of linear elements is positive semi-definite, and any rigid translation or infinitesimal rotation of a free mechanical model (rotation: springs and interface elements that join coincident points), or any uniform temperature of a free thermal model, produces no nodal force or heat flow. Stored energy computed from it is unchanged by rotating the model, and the thermal capacity matrix is positive semi-definite with total equal to the total heat capacity of the mesh.",
     ["inputs"], "all valid element geometries, orientations and positive material constants",
     "The tests never look at an element matrix except indirectly in one solution.",
     [E + "TRUSS3.cpp", E + "TETRA0.cpp", E + "TETRA1.cpp", E + "TRIANGLE4.cpp", E + "QUADTH.cpp", E + "INTER0.cpp", E + "INTER3.cpp", E + "element.h"],
     [("element assembly", E + "*.cpp buildK/buildC")],
     observe=["FEStorage::getK/getC after assembleGlobalEqMatrices"],
     technique="PBT: spectral and null-space invariants of assembled matrices",
     note="Invariants of the assembled matrix, evaluated with a dense eigen-decomposition.")

prop("P06", "Thermal loads balance and act where they are applied",
     "In a steady thermal model with any mix of volumetric heat sources, prescribed temperatures, surface flux and surface convection, the heat put in (sources, nodal heat flow, surface flux, convection) equals the heat drawn out at the prescribed temperatures. The solution equals that of the independently integrated heat equation, each surface term scales with its own edge length, and a convection surface given one ambient temperature uses it at both ends.",
     ["inputs"], "all thermal quad meshes with surface elements, all source, flux, film coefficient and ambient values",
     "The tests run a single 2D plate with one set of constants.",
     [E + "QUADTH.cpp", E + "QUADTH.h", E + "TETRA1.cpp"],
     [("volumetric source", E + "QUADTH.cpp ElementQUADTH::buildK"), ("surface flux and convection", E + "QUADTH.cpp SurfaceLINETH::buildK")],
     observe=["FEStorage::getNodeDofSolution TEMP", "FEStorage::getReaction TEMP"],
     technique="PBT: heat balance invariant and differential check against an independent integrator",
     note="Oracle integrates bilinear shape functions with its own quadrature.")

prop("P07", "Transient linear solution equals the Newmark scheme for the model",
     "For every linear thermal transient model and every admissible choice of integration parameters, step count, time span, initial value, loads and (also non-zero) prescribed values, each time step's values equal those of the Newmark recurrence (displacement, velocity and acceleration update) for the model's matrices. Exactly the requested number of steps is computed and post-processed in order, prescribed values are held at every step and the reactions are those of the discrete equation of motion.",
     ["inputs", "configurations"], "all parameters, spans, step counts and boundary data",
     "One test runs one transient case with zero initial rate, equal parameters (where several errors cancel) and compares with 1% tolerance.",
     [L + "FESolver.cpp", L + "FESolver.h", E + "QUADTH.cpp"],
     [("Newmark coefficients and time loop", L + "FESolver.cpp LinearTransientFESolver::solve")],
     observe=["a PostProcessor reading FEStorage at every step"],
     technique="differential PBT: generated transient models vs a dense reference Newmark integrator",
     note="All time steps compared through a recording post-processor.")

prop("P08", "Hyperelastic stress and tangent are derivatives of the strain energy",
     "For every supported hyperelastic material, parameter set, admissible deformation and pressure, the second Piola-Kirchhoff stress is the derivative of the isochoric strain energy plus the pressure part, and the returned tangent is the derivative of that stress with respect to deformation and pressure. In the undeformed state with zero pressure the stress vanishes, and asking for a subset of components in any order returns the same numbers as asking for all of them.",
     ["inputs"], "all deformations with positive volume, all parameters, all pressures, all component selections",
     "The tests only reach materials through three finite element models with Neo-Hookean and never check a derivative.",
     [L + "materials/materials_hyperelastic.cpp", L + "materials/materials_hyperelastic.h", L + "solidmech.cpp"],
     [("stress", L + "materials/materials_hyperelastic.cpp getS_UP"), ("tangent", L + "materials/materials_hyperelastic.cpp getDdDp_UP"), ("energy derivatives", L + "materials/materials_hyperelastic.cpp W_first/W_second")],
     observe=["Mat_Hyper_Isotrop_General::getS_UP/getDdDp_UP", "Material::getWU/getWP"],
     technique="differential PBT: automatic differentiation of the energy and central differences over generated deformations, parameters and user-written materials",
     note="The reference differentiates the textbook energy formula by second-order forward automatic differentiation; deformations with J down to 0.05 and condition up to about 1e4.")

prop("P09", "Nonlinear element tangent is the derivative of its internal force",
     "For the plane and the hexahedral hyperelastic elements in any admissible deformed state, the assembled tangent matrix is the exact negative derivative of the assembled internal force with respect to every displacement and pressure unknown, and it is symmetric. The internal force is the gradient of the element's stored mixed energy.",
     ["inputs"], "all element shapes, materials, integration orders, displacement and pressure states with positive volume",
     "Tests check only converged curves of a few models, which a wrong tangent can still reach.",
     [E + "PLANE41.cpp", E + "SOLID81.cpp"],
     [("tangent and residual", E + "PLANE41.cpp buildK"), ("tangent and residual", E + "SOLID81.cpp buildK")],
     observe=["FEStorage::getK and getF after assembleGlobalEqMatrices"],
     technique="differential PBT: gradient and Hessian of an independent mixed energy by automatic differentiation; work against the reported energy",
     note="Meshes of 1 to 4 elements, integration orders 1 to 3, built-in and user-written materials, states with J > 0.15.")

prop("P10", "Hyperelastic elements are objective and stress-free under rigid motion",
     "Superposing a rigid rotation and translation on any deformed state of a hyperelastic mesh leaves energy, invariants and second Piola-Kirchhoff stress unchanged and rotates nodal forces and Cauchy stress; a pure rigid motion produces no force. The reported stresses, deformation measures, invariants and energies are those of the deformation gradient and the pressure, and a plane model under plane strain gives the same forces per unit thickness, pressure equation, stresses and invariants as the corresponding extruded solid model with no out-of-plane motion.",
     ["inputs"], "all states, rotations and element shapes",
     "Not sampled by any test.",
     [E + "PLANE41.cpp", E + "SOLID81.cpp", L + "solidmech.cpp", L + "materials/materials_hyperelastic.cpp"],
     [("kinematics", E + "SOLID81.cpp update"), ("kinematics", E + "PLANE41.cpp update")],
     observe=["FEStorage::getF", "Element::getTensor/getScalar"],
     technique="metamorphic PBT: rotated states, plane vs extruded solid",
     note="Relations between real element evaluations in two configurations.")

prop("P11", "Nonlinear solution is an equilibrium path scaled by load-step time",
     "At every completed load step of the nonlinear solver all prescribed values equal their target times the normalised step time, the external loads are scaled likewise, and internal forces balance loads and reactions up to the convergence tolerance. The requested number of load steps is performed, the final state does not depend on how many steps were used, reactions equal the forces of the converged state, and homogeneous states agree with the analytic solution.",
     ["inputs", "histories", "configurations"], "all well-posed hyperelastic models, step counts and load histories",
     "Tests run 20 steps on three meshes and compare one reaction curve; load-step independence and equilibrium are not checked.",
     [L + "FESolver.cpp", E + "PLANE41.cpp", E + "SOLID81.cpp"],
     [("incremental Newton iteration", L + "FESolver.cpp NonlinearFESolver::solve"), ("boundary scaling", L + "FESolver.cpp applyBoundaryConditions"), ("time stepping", L + "FESolver.cpp TimeControl")],
     observe=["a PostProcessor reading FEStorage at every step", "FEStorage::getReaction"],
     technique="PBT: equilibrium invariant at each step, differential reference Newton path (autodiff energies), load-step metamorphic relation, closed-form uniaxial states",
     note="Models of up to 4 PLANE41 or 3 SOLID81; homogeneous multi-point constraints; paths whose reference iteration is slow, unstable or leaves the element shapes are discarded; criteria are tight so that the tolerances are well above the iteration error.")

prop("P12", "Rigid-body constraint keeps slave nodes on an exact finite rigid motion",
     "When nodes are tied to a master node by the rigid-body constraint, at the end of every converged load step each tied node's tied components equal the master's translation plus the exact finite rotation (rotation-vector convention) of the initial offset, for rotations of any size including zero and near zero (in a linear solution, the small rotation of the offset). Components that are not tied stay free, and the constraint forces transmit force and moment to the master consistently.",
     ["inputs", "histories"], "all offsets, rotation vectors, sets of tied nodes and tied components",
     "One stable test turns one block about one axis and compares a moment curve.",
     [L + "Mpc.cpp", L + "Mpc.h", L + "FESolver.cpp"],
     [("constraint linearisation", L + "Mpc.cpp RigidBodyMpc::update"), ("registration", L + "Mpc.cpp RigidBodyMpc::pre")],
     observe=["FEStorage::getNodeDofSolution of tied nodes", "FEStorage::getReaction of master"],
     technique="PBT: exact kinematics (Rodrigues), virtual work and a differential reference path on generated rigid-body problems",
     note="Hyperelastic bodies of up to 4 elements, one or two rigid bodies, angles up to a full turn in steps of about 0.2; the linear solver is compared with the small-rotation relation. Exact up to the convergence criterion (mean change 1e-10) and 1e-9 of the offset, the accuracy of the small-angle branch.")

prop("P13", "Linear multi-point constraints hold and do no spurious work",
     "After any linear solution every multi-point equation is satisfied, including inhomogeneous ones and ones involving prescribed or repeated degrees of freedom, and the constrained solution is the minimum of potential energy among all states satisfying constraints. Scaling an equation or stating the terms in another order does not change the solution, and a model without constraints is unaffected by the constraint machinery.",
     ["inputs"], "all consistent, independent sets of linear constraint equations",
     "Constraint equations occur in the tests only through one stored reader model and the rigid-body model.",
     [L + "Mpc.cpp", L + "FEStorage.cpp", L + "FESolver.cpp"],
     [("constraint assembly", L + "FEStorage.cpp assembleGlobalEqMatrices"), ("saddle solution", L + "FESolver.cpp LinearFESolver::solve")],
     observe=["FEStorage::getNodeDofSolution"],
     technique="PBT: constraint residual, energy minimality and null-space reference solution",
     note="Independent constraint sets by construction.")

prop("P14", "Degree-of-freedom table and equation numbers are consistent",
     "For any sequence of registering degrees of freedom on nodes and elements and marking them as prescribed, exactly the registered ones are in use, registering twice changes nothing, and the equation numbers are a bijection onto 1..N with all prescribed ones before all free ones and all constraint multipliers last. The counts of total, prescribed and free degrees of freedom agree with it, and every lookup returns the same entry that was registered.",
     ["histories", "inputs"], "all operation sequences over any number of nodes and elements",
     "No test drives the table with anything but a handful of meshes.",
     [L + "Dof.cpp", L + "Dof.h", L + "FEStorage.cpp"],
     [("table", L + "Dof.cpp DofCollection"), ("numbering", L + "FEStorage.cpp assignEquationNumbers")],
     observe=["FEStorage::isNodeDofUsed/getNodeDofEqNumber/nDofs/nConstrainedDofs/nUnknownDofs", "DofCollection"],
     technique="model-based stateful PBT against a set/map model",
     note="Random histories of register/constrain/number operations.")

prop("P15", "Sparse matrices behave as the dense matrices they represent",
     "For any sequence of entry registration, compression and value additions, every sparse matrix (general or symmetric, also when several matrices share one pattern) reads back at every position the sum of the values added there and zero elsewhere, symmetric ones in both triangles. Products with vectors and with the transpose equal the dense product including the factor and accumulation, and the exposed row/column/value arrays describe the same matrix.",
     ["histories", "inputs"], "all shapes, patterns, insertion orders and values",
     "Tests check a few fixed matrices.",
     [M + "SparseMatrix.cpp", M + "SparseMatrix.h"],
     [("pattern", M + "SparseMatrix.cpp SparsityInfo"), ("products", M + "SparseMatrix.cpp matBVprod/matBTVprod/matBTDBprod")],
     observe=["value()/operator()", "matBVprod, matBTVprod", "getValuesArray/getColumnsArray/getIofeirArray"],
     technique="model-based stateful PBT against a dense model",
     note="Under ASan/UBSan.")

prop("P16", "Block symmetric matrix equals the monolithic symmetric matrix",
     "For any partition into blocks, registering, adding to and reading entries of the block matrix by global position gives the same matrix as one undivided symmetric matrix, whichever triangle an entry is addressed through. Each block is exactly the corresponding sub-matrix, and zeroing, compressing or sharing the pattern with another block matrix keeps the others' values.",
     ["histories", "inputs"], "all partitions, patterns and operation orders",
     "Tests cover one or two small matrices.",
     [M + "BlockSparseMatrix.h"],
     [("block addressing", M + "BlockSparseMatrix.h")],
     observe=["value()", "block(i), block(i,j)"],
     technique="model-based stateful PBT against a dense symmetric model",
     note="2, 3 and 4 blocks including empty blocks; ASan/UBSan build.")

prop("P17", "Saved matrices and vectors read back equal and comparisons tell differences",
     "Writing any sparse matrix, symmetric matrix or vector to its text form and reading it back yields an object that equals the original in shape, pattern and values (15 significant digits), also with several objects one after another in one stream and whatever number format the stream was set to. The comparison accepts objects whose entries differ by less than the threshold and rejects different sizes, different patterns or any entry differing by more, and saved system dumps of a solver verify against the same model.",
     ["inputs"], "all matrices, vectors, patterns and magnitudes",
     "Tests read and compare a few stored files.",
     [M + "SparseMatrix.cpp", M + "Vec.cpp", L + "FESolver.cpp"],
     [("text format", M + "SparseMatrix.cpp writeCoordinateTextFormat/readCoordinateTextFormat"), ("vector text format", M + "Vec.cpp writeTextFormat/readTextFormat"), ("comparison", M + "SparseMatrix.cpp compare")],
     observe=["read objects", "compare()"],
     technique="round-trip PBT with perturbation of single entries; dumps of solved random models parsed independently and spoiled",
     note="Includes streams with several objects and values of widely different magnitude.")

prop("P18", "Equation solvers solve the given system and keep it intact",
     "Every equation solver returns x with A x = b (to the accuracy the conditioning allows) for any non-singular symmetric system it accepts, definite or indefinite, of any size and sparsity, including saddle-point systems from constraints, and for repeated substitutions after one factorisation. The matrix itself is not modified and results do not depend on what was solved before with the same solver object. The dense solver refuses systems above its size limit and systems with an equation nothing contributes to.",
     ["inputs", "histories"], "all symmetric systems and sequences of solve, factorise and substitute calls",
     "Tests solve a few small systems, each with a fresh solver.",
     [M + "EquationSolver.cpp", M + "EquationSolver.h"],
     [("dense Gauss elimination", M + "EquationSolver.cpp GaussDenseEquationSolver"), ("PARDISO wrapper", M + "EquationSolver.cpp PARDISO_equationSolver")],
     observe=["solution arrays", "matrix values after the call"],
     technique="stateful PBT: residual oracle and dense reference over call histories; both solver back ends",
     note="Gauss in the default build, PARDISO in the MKL build.")

prop("P19", "Small dense matrix and vector algebra obeys linear algebra",
     "All fixed-size and dynamic dense matrix and vector operations (sum, product, transpose, determinant, inverse, norms, symmetric storage conversion and the product kernels used in element formulation) give the values of their mathematical definition for all inputs, accumulate where they are documented to accumulate, and leave their operands unchanged. Symmetric matrices store and expose the same numbers in any access path.",
     ["inputs"], "all sizes used and all values",
     "Tests check fixed matrices read from files.",
     [M + "Mat.h", M + "Mat.cpp", M + "Vec.h"],
     [("kernels", M + "Mat.h matBTDBprod, matBTVprod, ..."), ("determinant and inverse", M + "Mat.cpp")],
     observe=["returned objects"],
     technique="differential PBT against Eigen",
     note="All kernel instantiations the elements use, plus others.")

prop("P20", "Dynamic vectors own or view memory without aliasing surprises",
     "A view onto part of a vector always reads and writes exactly the elements of its parent, nested views included, and assignments and arithmetic on views write through; owners copy on copy and assignment. No sequence of construction, re-initialisation, assignment, arithmetic and destruction leaks values between unrelated vectors, reads outside the vector, frees twice or leaves memory behind.",
     ["histories"], "all sequences of vector operations",
     "No test exercises views beyond one simple case.",
     [M + "Vec.cpp", M + "Vec.h"],
     [("ownership", M + "Vec.cpp dVec")],
     observe=["operator[]", "size()", "isInit()"],
     technique="model-based stateful PBT under AddressSanitizer",
     note="Model: a store of arrays with (base, offset, length) views.")

prop("P21", "Shape functions, quadrature and geometry are exact for line, quad and hex",
     "For every valid line, quadrilateral and hexahedron and each integration order, shape functions sum to one and interpolate the nodes, their global derivatives reproduce the gradient of every linear field, and the weighted Jacobians sum to the exact length, area or volume (for the one-point hexahedron rule: of parallelepipeds). Polynomials up to the order's degree are integrated exactly on parallelogram shapes, and inverted or exactly collapsed elements are reported as errors while valid ones are not.",
     ["inputs"], "all element geometries in any position and orientation, all integration orders and points",
     "Tests check a couple of unit-like elements.",
     [E + "isoparametric.h", E + "isoparametric.cpp"],
     [("Jacobian and derivatives", E + "isoparametric.cpp makeJacob"), ("quadrature tables", E + "isoparametric.h")],
     observe=["volume(), intWeight(), formFunc via an element subclass"],
     technique="PBT: partition of unity, gradient reproduction, exact measure and polynomial exactness",
     note="Oracle uses closed-form polygon area / hexahedron volume.")

prop("P22", "CDB reader loads exactly the model in the file",
     "Reading any well-formed CDB mesh yields exactly the nodes with their numbers and coordinates, the elements with their connectivity, type and material numbers, the prescribed values, nodal loads, constraint equations with any number of terms, and node and element components (ranges included) that the file contains, in file order. Nothing is dropped, duplicated or taken from unrelated blocks.",
     ["inputs"], "all well-formed CDB files of the supported subset, any sizes and counts",
     "One stored file is read in the tests.",
     [L + "FEReaders.cpp", L + "FEReaders.h"],
     [("parser", L + "FEReaders.cpp readCdbFile")],
     observe=["MeshData"],
     technique="generator-inverse PBT: write a random model as CDB, read, compare",
     note="The generator owns the model; the writer follows the format of the shipped files.")

prop("P23", "CDB reading is insensitive to formatting and safe on damaged files",
     "Line endings (LF or CR LF), letter case of keywords and labels, comment and unknown commands between blocks, blank lines between commands and a missing final newline do not change what is read from a CDB file. A truncated, corrupted or arbitrary file is either read, reported as unreadable or ends in a clean fatal error: never an out-of-bounds access, endless loop or other memory fault.",
     ["inputs", "fault_sequences"], "all formatting variants; all byte-level damage to files",
     "Tests read one file in one format.",
     [L + "FEReaders.cpp", L + "FEReaders.h", L + "sys.h"],
     [("tokenizer", L + "FEReaders.h Tokenizer"), ("parser", L + "FEReaders.cpp readCdbFile")],
     observe=["MeshData", "process status"],
     technique="metamorphic PBT on formatting plus mutation fuzzing of structured files under ASan/UBSan",
     note="Mutations are structure-aware (lines, fields, counts, bytes, truncation).")

prop("P24", "NEU reader loads exactly the mesh in the file",
     "Reading any well-formed neutral-format volume mesh yields the nodes in order with their coordinates, one tetrahedron per volume element with its material and connectivity, and for each surface index a component, named by that index, that lists the three node numbers of each of its triangles in file order; whatever the mesh held before is replaced. A truncated or damaged file is reported or ends in a clean fatal error, never in a memory fault or endless loop.",
     ["inputs", "fault_sequences"], "all well-formed neutral files and all damage to them",
     "One stored file is read by one test through a whole solution.",
     [L + "FEReaders.cpp"],
     [("parser", L + "FEReaders.cpp readNeuFile")],
     observe=["MeshData"],
     technique="generator-inverse PBT and mutation fuzzing under ASan/UBSan",
     note="")

prop("P25", "Number compression and mesh helpers preserve the mesh",
     "Compressing the numbers of any mesh with arbitrary (gapped, permuted, large) node numbers gives a mesh isomorphic to it with consecutive node numbers in file order: connectivity, prescribed values, loads, constraint equations and node components still refer to the same physical nodes, numbers of nodes that do not exist disappear from components, and nothing else changes. The degenerate cells reported are exactly those with a repeated node, and selecting cells by attribute returns exactly the matching ones (none for an unknown attribute).",
     ["inputs"], "all meshes with any numbering",
     "One mesh is compressed in the tests.",
     [L + "FEReaders.cpp", L + "FEReaders.h"],
     [("renumbering", L + "FEReaders.cpp compressNumbers"), ("degenerate cells", L + "FEReaders.cpp getDegeneratedCells"), ("selection", L + "FEReaders.cpp getCellsByAttribute")],
     observe=["MeshData"],
     technique="PBT: isomorphism oracle between the mesh before and after",
     note="")

prop("P26", "VTK files are well formed and carry the model's results",
     "Every VTK file written for any model and step is a well-formed legacy unstructured grid: declared counts match the data, cell offsets, types and 0-based connectivity match the elements, and point coordinates are the model's. All nodal values, force reactions, element degree-of-freedom values and requested element results appear under their name with the values the model reports, one file per step with the step in its name.",
     ["inputs", "configurations"], "all models, element mixes, result selections and steps",
     "No test reads a written VTK file.",
     [L + "VtkProcessor.cpp", L + "VtkProcessor.h"],
     [("writer", L + "VtkProcessor.cpp")],
     observe=["written files"],
     technique="PBT: independent VTK parser compared with the live storage",
     note="Linear (all element types and a user element), transient and nonlinear runs; explicit selections, all results, several writers at once; values are compared to the six written digits and the set of files must be exactly one per step plus the initial one.")

prop("P27", "Reaction recorder reports the summed reactions of its nodes for each step",
     "For any set of nodes and degrees of freedom, given explicitly or chosen automatically, the recorder holds one value per step equal to the sum of the reported reactions over the nodes, starting from zero, in the order of the steps. The automatic choice takes the degrees of freedom prescribed on the first node and refuses a set in which another node lacks one of them, and the written table agrees with the recorded values.",
     ["inputs", "histories"], "all node sets, selections and load histories",
     "Tests use it through one stored curve.",
     [L + "ReactionProcessor.cpp", L + "ReactionProcessor.h"],
     [("recording", L + "ReactionProcessor.cpp process"), ("selection", L + "ReactionProcessor.cpp pre")],
     observe=["getReactions", "written file"],
     technique="PBT against direct sums of reactions read at each step",
     note="Linear, transient and nonlinear runs of generated models, one to three recorders each, with a file, without and with one that can not be written; the table is read back to its six digits.")

prop("P28", "Load-step time advances monotonically and lands exactly on the end",
     "For any start and end time and any sequence of requested increments, current time starts at the start time, increases at every step by at most the request, never passes the end time and reaches it exactly, after which no further step is granted. With a constant increment the range is covered in the expected number of steps, no step is shorter than half the request unless the whole range is, normalised time and increments are consistent, and step and iteration counters follow the history of calls.",
     ["histories", "inputs"], "all call histories",
     "One scripted history is tested.",
     [L + "FESolver.cpp", L + "FESolver.h"],
     [("time stepping", L + "FESolver.cpp TimeControl")],
     observe=["TimeControl getters"],
     technique="model-based stateful PBT over call histories",
     note="")

prop("P29", "Element result queries follow the documented accumulate-and-scale contract",
     "Every scalar, vector and tensor result query on every element type adds result times scale to the caller's variable; a query the element does not support returns false and leaves the variable untouched, writing nowhere else. The mean over an element is the volume-weighted mean of its integration-point values, and repeated queries return the same number.",
     ["inputs", "histories"], "all element types, queries, points, scales and element states",
     "Tests call a few queries with the default scale.",
     [E + "element.cpp", E + "query.h", E + "TETRA0.cpp", E + "TETRA1.cpp", E + "TRIANGLE4.cpp", E + "TRUSS3.cpp", E + "INTER0.cpp", E + "INTER3.cpp", E + "PLANE41.cpp", E + "SOLID81.cpp"],
     [("queries", E + "*.cpp getScalar/getVector/getTensor")],
     observe=["query return values"],
     technique="PBT: algebraic laws of the query interface under ASan/UBSan",
     note="")

prop("P30", "Model storage survives any build, solve, delete and reuse sequence",
     "Any sequence of creating and deleting nodes, elements, components, constraints and solution data, solving and solving again after a delete, keeps counts and lookups consistent, gives the same solution as a fresh storage, and releases every object exactly once. No such history reads or writes freed or foreign memory.",
     ["histories"], "all sequences of storage operations",
     "Tests build one model, solve it once and exit.",
     [L + "FEStorage.cpp", L + "FEStorage.h", L + "Mpc.cpp", L + "FEComponent.cpp"],
     [("ownership", L + "FEStorage.cpp delete*"), ("creation", L + "FEStorage.cpp createNodes/createElements")],
     observe=["counts, lookups, solutions", "sanitizer reports"],
     technique="model-based stateful PBT under AddressSanitizer",
     note="Solving again is compared with a fresh storage to 1e-12 (linear) or the solver's criterion (nonlinear). Second solutions of TETRA0 models are a known finding (public strains/stress hold both initial values and results).")

prop("P31", "The command line program runs the model it is told to",
     "For every valid combination of options and mesh file the program applies the file's boundary conditions, the chosen element, material, step and iteration settings, writes VTK files exactly when not told otherwise, reports reactions of the requested component and degrees of freedom, and its answer equals that of the library driven directly. It exits with failure exactly when the compared curve deviates beyond the threshold or the input is invalid.",
     ["inputs", "configurations"], "all option combinations, mesh files and reference curves",
     "Three tests run it with one option set each.",
     ["src/main.cpp", L + "sys.cpp", L + "sys.h"],
     [("option parsing", "src/main.cpp"), ("curve comparison", "src/main.cpp compareCurves")],
     observe=["exit status", "written files", "log"],
     technique="differential PBT: program runs vs library runs on generated meshes and options",
     note="The program is built with AddressSanitizer and run in a scratch folder; invalid input covers 21 kinds of wrong options, curves and components.")

prop("P32", "The Python module drives the library and guards its indexes",
     "A Python program that builds a model (by hand or from a mesh file), sets conditions, solves and reads results gets the numbers the same program in C++ gets, keeps objects alive whatever the order in which it drops its references, and does vector and matrix arithmetic as the library does. An index outside an object, or an element asked for as another class, raises IndexError and leaves the object as it was.",
     ["inputs", "histories"], "all programs over the exported classes, all indexes",
     "Four scripts of the test suite run one model each; indexes outside are never tried.",
     ["python/nla3d.swg", L + "math/Vec.h", L + "math/Mat.h", L + "FEStorage.h", L + "FEReaders.h"],
     [("index checks", "python/nla3d.swg __getitem__, _setitem"), ("ownership", "python/nla3d.swg addNode, addElement, addPostProcessor")],
     observe=["values in Python", "exceptions", "exit of the interpreter"],
     technique="differential PBT: generated Python programs vs the library in C++",
     note="The module is built with SWIG from the current tree. Vec's variadic constructor (undefined for Python ints) and Mpc made in Python are outside.")


def main():
    import sys
    sys.path.insert(0, V)
    from props import PROPS
    na = json.load(open(os.path.join(V, "tools", "not_claimed.json")))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in P:
        if p["id"] not in PROPS or p["id"] in na:
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py check %s quick" % p["id"],
                           thorough_cmd="python3 run.py check %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                           technique=p["_technique"], level="exploration",
                           level_note=("Random search with a fixed number of cases per seed and shrinking; no exhaustive guarantee. " + p["_note"]).strip()))
    man = dict(version=1, setup_cmd="python3 run.py setup",
               hooks=dict(guard="NLA3D_VERIF", enable="not used: the checks drive the public API of the unmodified sources", source_commits=[]),
               checks=checks,
               not_applicable=[dict(property=p["id"], reason=na.get(p["id"], "check not built yet")) for p in P
                               if p["id"] not in PROPS or p["id"] in na],
               notes="Everything is built by run.py from /repo's working tree into /verif/build (git-ignored). VERIF_SEED selects the cases.")
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    print(len(P), "properties,", len(checks), "checks")


main()
