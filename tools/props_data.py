HEXF = ["src/nimble_element.cc", "src/nimble_element.h"]
ASSUME = "Doubles are mathematical reals, ints mathematical integers; clang front end, solvers and the verifier are trusted."

P("C01", "Small tensor algebra computes the mathematical operation it names",
  "Every 3x3 tensor routine (products, transposes, sums, norms, determinant, inverse, rotation of symmetric tensors, symmetric and skew parts, "
  "cross product, logarithm of a rotation, commutator expansion) returns exactly the mathematical result of its named operation on its arguments, "
  "in the documented component storage order, and writes nothing else. Spectral routines (eigenvalues, polar decomposition) return factors that "
  "reassemble the input.",
  "All values of all tensor components (and both matrix orientations), including aliased in-place calls where the code base uses them.",
  "One unit test inverts one matrix; the results must hold for every tensor and for every component.",
  ["src/nimble_utils.h"], [("tensor kernels", "src/nimble_utils.h")],
  note="35 contracts; the three spectral routines are iterative floating point and stay native/bounded, labelled so. " + ASSUME)

P("C02", "Hexahedral shape functions and quadrature tables are the trilinear ones",
  "For the 8-node brick the interpolation functions are 1 at their own node and 0 at the other nodes, sum to 1 everywhere and reproduce every linear field; "
  "the derivative functions are their exact gradients; and the quadrature uses eight points at +-1/sqrt(3) with unit weights and tables evaluated at those points.",
  "All points in the reference cube, all nodes, all quadrature points.",
  "No test touches the element; a wrong sign for one node at one point shows only for particular fields.",
  HEXF, [("ShapeFunctionValues, ShapeFunctionDerivatives, constructor tables", "src/nimble_element.cc")], note=ASSUME)

P("C03", "Element deformation gradients are the gradient of the motion",
  "For every non-degenerate reference geometry and every current geometry, the deformation gradient reported at each integration point is the derivative of current "
  "with respect to reference position under the element interpolation, in full-tensor storage order. In particular it is the identity without motion, and F for an affine motion x = F X + c.",
  "All reference and current nodal coordinates (reference Jacobian nonsingular) and all integration points.",
  "No test evaluates an element; only special (affine, axis-aligned) motions would be sampled.",
  HEXF, [("ComputeDeformationGradients", "src/nimble_element.cc")], note=ASSUME)

P("C04", "Element internal force is the work-conjugate of the stress and self-equilibrated",
  "The nodal forces an element returns equal minus the quadrature sum of Cauchy stress contracted with the current shape-function gradients times volume, for every node and direction. "
  "Hence the forces of one element sum to zero and, for symmetric stress, exert no net moment.",
  "All current geometries with positive Jacobian, all stresses at all integration points.",
  "No test evaluates internal forces; a swapped component cancels in symmetric samples.",
  HEXF, [("ComputeNodalForces", "src/nimble_element.cc")], note=ASSUME)

P("C05", "Lumped mass is the row-summed consistent mass",
  "The lumped nodal masses of an element are the row sums of its consistent mass matrix (density times products of shape functions integrated over the reference geometry), "
  "so that the masses of an element sum to density times its volume.",
  "All reference geometries with positive Jacobian and all densities.",
  "No test computes masses.", HEXF, [("ComputeLumpedMass, ComputeConsistentMass_impl", "src/nimble_element.h")], note=ASSUME)

P("C06", "Element volume and volume averages are the quadrature of the current geometry",
  "The element volume is the quadrature of the Jacobian determinant over the current geometry, and each volume-averaged quantity is the volume-weighted mean of its integration-point values, "
  "for any number of quantities, each with its own values.",
  "All current geometries with positive Jacobian, any number of quantities, all values.",
  "No test computes derived element data.", HEXF, [("ComputeVolumeAverage, ComputeVolumeAverageQuantities_impl", "src/nimble_element.h")], note=ASSUME)

P("C07", "Characteristic length and stable time step are invariant geometric minima",
  "An element's characteristic length is the smaller of its smallest nodal distance and its smallest axis-aligned extent, wherever the element lies in space. "
  "The critical time step of a block is the minimum over its elements of characteristic length of the current geometry divided by the material's sound speed sqrt(K/rho).",
  "All nodal coordinates, displacements, any number of elements and any connectivity, all positive moduli and densities.",
  "No test computes it; an error shows only for elements far from the origin or in unusual aspect ratios.",
  HEXF + ["src/nimble_block_base.cc"], [("ComputeCharacteristicLength", "src/nimble_element.cc"), ("ComputeCriticalTimeStep", "src/nimble_block_base.cc")],
  note=ASSUME)

P("C08", "Linear elastic stress is isotropic Hooke's law of the small strain",
  "At every integration point the elastic material returns bulk modulus times volumetric strain plus twice shear modulus times deviatoric strain, with strain the symmetric part of the deformation gradient minus identity, "
  "using the moduli it was constructed with. Its reported density and moduli are the ones given.",
  "All deformation gradients, moduli and any number of integration points.",
  "The material tests construct materials and compare host and device on a few values.",
  ["src/nimble_material.cc", "src/nimble_material.h"], [("ElasticMaterial::GetStress", "src/nimble_material.cc")], note=ASSUME)

P("C09", "Neo-Hookean stress follows the compressible hyperelastic law",
  "At every integration point the neo-Hookean material returns K/2 (J - 1/J) on the diagonal plus (mu/J) times the deviator of J^(-2/3) F F^T, with J = det F, using the moduli it was constructed with. "
  "It vanishes in the undeformed state and its reported density and moduli are the ones given.",
  "All deformation gradients with positive determinant, moduli and any number of integration points.",
  "The material tests run a few deformation gradients.",
  ["src/nimble_material.cc", "src/nimble_utils.h"], [("NeohookeanMaterial::GetStress", "src/nimble_material.cc"), ("Polar_Decomp", "src/nimble_utils.h")],
  note="The stress as a function of the left stretch is proved; the left stretch itself (Polar_Decomp, eigenvalue based) is an assumed contract checked by native runs only. " + ASSUME,
  level="other")

P("C10", "Material tangents are the isotropic elastic stiffness",
  "Both materials return, for every integration point, the symmetric 6x6 isotropic stiffness built from bulk and shear modulus in Voigt order (xx, yy, zz, xy, yz, zx) with engineering shear strains, "
  "so that applied to a strain it gives the elastic stress.",
  "All moduli, any number of points, all 36 entries.",
  "No test reads a tangent.", ["src/nimble_material.cc"], [("GetTangent", "src/nimble_material.cc")], note=ASSUME)

P("C11", "Element tangent stiffness is the quadrature of B^T C B",
  "The element tangent equals the quadrature sum of B^T C B over the given geometry for the given material tangents, for all 24x24 entries; it is symmetric for symmetric material tangents and annihilates rigid translations.",
  "All geometries with positive Jacobian and all material tangents.",
  "No test computes an element tangent.", HEXF, [("ComputeTangent", "src/nimble_element.cc")], note=ASSUME)

P("C12", "Block assembly is the sum of element contributions",
  "The lumped mass and internal force a block adds to the global arrays are exactly the sums, over its elements, of the element contributions at their connected nodes, for any mesh. "
  "Each element's deformation gradient, stress and state variables are read from and written to exactly their own slots of the element data, the material sees the old data, the times, the element id and the output flag of its own element, "
  "every contribution to a shared node is added atomically, and a stress-only call leaves the force alone.",
  "Any number of nodes and elements, any connectivity (shared nodes included), any element data, with and without state variables.",
  "No test assembles a block; lost or misplaced contributions need shared nodes, state variables or threads to show.",
  ["src/nimble_block.cc", "src/nimble_block.h"],
  [("ComputeLumpedMassMatrix, ComputeInternalForce", "src/nimble_block.cc")],
  note="The element routines are used through their contracts (proved in C03-C06), the material as an uninterpreted response. Kokkos::parallel_for and atomic_add are assumed to do what they document. " + ASSUME)

P("C13", "The assembled tangent stiffness is the sum of the element tangents",
  "For every pair of unknowns stored in the global sparse matrix, assembly adds to that entry exactly the sum, over the elements, of the element tangent entries whose nodes map to that pair through the local-to-global node map, and touches nothing else. "
  "Element tangents are those of the current coordinates and of the material tangents.",
  "Any mesh, any connectivity and any (also non-injective) local-to-global map, any displacements, any stored pattern containing the pairs of the elements.",
  "No test assembles a tangent; a transposed or misplaced entry needs shared nodes and unsymmetric neighbours to show.",
  ["src/nimble_block.cc", "src/nimble_element.cc", "src/nimble_data_utils.h"],
  [("ComputeTangentStiffnessMatrix", "src/nimble_block.cc"), ("GetTangent, ComputeTangent", "src/nimble_element.cc")],
  note="The element tangent is used through its contract (C11) and the matrix lookup through its contract (C14). " + ASSUME)

P("C14", "The sparse matrix container stores and multiplies the matrix it was given",
  "A compressed-row matrix allocated from row and column indices has one zero entry for each given pair; lookup returns the position of the pair and refuses pairs that are not stored; reading, adding and setting by (row, column) affect exactly that entry; "
  "setting a row, column or everything sets exactly those entries; the matrix-vector product is the sum over the stored entries; "
  "the diagonal preconditioner holds the reciprocals of the diagonal and its product scales each component by it.",
  "Any pattern sorted by rows with non-empty rows, any values and vectors, any queried pair.",
  "No test uses the matrix container.",
  ["src/nimble_linear_solver.h", "src/nimble_linear_solver.cc"],
  [("CRSMatrixContainer, MatVec, FindIndex, PopulateDiagonalPreconditioner", "src/nimble_linear_solver.cc")], note=ASSUME)

P("C15", "Conjugate gradients report success only for a solution of the system",
  "When the conjugate gradient solver reports success, the vector it returns has a diagonally weighted squared residual of at most the relative tolerance times that of the starting vector, whatever the recurrences did on the way. "
  "It never exceeds the iteration limit, and reports failure only when it has reached it. The inner products are the sums of products.",
  "Any matrix with positive diagonal, any right-hand side, start, tolerance and iteration limit, any number of iterations.",
  "No test runs the solver; the recursively updated residual is invisible from outside.",
  ["src/nimble_linear_solver.cc"], [("CG_SolveSystem, InnerProduct", "src/nimble_linear_solver.cc")],
  note="Loop invariant: the residual vector the solver carries equals b - A x at every iteration. Real arithmetic (a division by zero curvature is outside). The preconditioner is used through its contract (C14). " + ASSUME)

P("C16", "Boundary and initial conditions set exactly their nodes, component and value",
  "A kinematic condition changes exactly the given component of exactly the nodes of its node set: a prescribed velocity becomes the velocity there (and, quasistatically, advances the displacement by it over the step), "
  "a prescribed displacement is reached at the end of the step through the velocity, or directly when quasistatic; an initial velocity is set once and is not kinematic. The value is the constant, or the expression at the node's reference position and the current time. "
  "In the linear system every constrained unknown gets a zero right-hand side and a row and column that are zero except for the diagonal; every other entry is unchanged.",
  "Any mesh, node set, component, field values, times and dimension 2 or 3, constant and expression values.",
  "The regression decks use a few sets on small meshes; a wrong component, node or scaling shows only for particular combinations of scheme, dimension and kind.",
  ["src/nimble_boundary_condition_manager.cc", "src/nimble_boundary_condition_manager.h", "src/nimble_boundary_condition.cc"],
  [("ApplyInitialConditions, ApplyKinematicBC, ModifyRHSForKinematicBC, ModifyTangentStiffnessMatrixForKinematicBC", "src/nimble_boundary_condition_manager.h")],
  note="One condition at a time. The expression is used through its contract (C18), sparse lookup through its contract (C14). " + ASSUME)

P("C17", "Explicit time integration performs exactly the central-difference scheme",
  "Starting from the given fields, the initial conditions and the kinematic conditions at the initial time, every step of length (final - initial time)/number of steps advances velocity by half a step, applies the kinematic conditions, "
  "advances displacement by a full step, applies the conditions again, evaluates external and internal force for the times of the step, sets acceleration = (internal + external force) / lumped mass, advances velocity by the second half step, "
  "and updates the states once. Output is written once at the start, after every k-th step counted from the first and after the last one (never if k = 0), with the time of that step, after the conditions were applied. A final time before the initial time is rejected.",
  "Any number of nodes and steps, output frequency, times, masses and fields; forces and conditions are arbitrary functions of unknown, time and state.",
  "The regression runs compare a few decks with loose tolerances at output times; a wrong factor, time or order in one update shows only for particular loads, frequencies or initial times.",
  ["src/integrators/explicit_time_integrator.cc", "src/integrators/integrator_base.cc", "src/nimble_view.h"],
  [("ExplicitTimeIntegrator::Integrate", "src/integrators/explicit_time_integrator.cc"), ("operator+= and AXPYResult of views", "src/nimble_view.h")],
  note="Without contact. The histories are defined by unfolding the scheme; the time loop is closed by an invariant naming them. Model, application object, output and timers are stand-ins. " + ASSUME)

P("C18", "Expressions evaluate to the value their text denotes",
  "An expression in x, y, z and t evaluates to the value its text denotes at the given point: numbers (with exponents), pi, e, tau, the elementary functions, + - * / ^ with the usual precedence and grouping (^ to the right), signs on operands, "
  "parentheses, blanks, conditionals with comparisons and ! & ^ |, remainder as the loosest operator. Simplification before evaluation never changes the value, the value follows the point it is asked at, copies are independent, and malformed text is rejected.",
  "All values of the operands for every kind of expression node and every combination of constant, variable and compound operands; texts: a fixed grammar-covering list for all values, and random ones.",
  "No test parses an expression; wrong grouping or a stale operand gives a plausible number.",
  ["src/nimble_expression_parser.cc", "src/nimble_expression_parser.h"], [("EquationContext, BoundaryConditionFunctor, MemoryManager", "src/nimble_expression_parser.h")],
  note="The node classes are proved for all operand values; the parser is executed symbolically on fixed texts (bounded in the text, all values of the variables) and natively on random texts. "
       "A minus in front of a power, conditions containing powers and remainders mixed with other operators without parentheses are outside. " + ASSUME, level="other")

P("C19", "Model data: totals over blocks, reference coordinates, field storage and output",
  "The nodal mass and the internal force are the sums of the contributions of all blocks, reduced over the ranks once, whatever was stored there before; each block is handed its own connectivity, element ids and states and the times of the step. "
  "The critical time step is that of the most restrictive block. A step makes new element data from old, and updating the states makes the new values the old ones. Reference coordinates are the mesh coordinates, component by component in 2D and 3D. "
  "A nodal field gets one identifier per label (up to case) and room for all its components at all nodes, and output of one component of a field yields exactly that component of that field at every node or element.",
  "Any number of nodes and elements in each of 1 to 3 blocks, any values, times and dimension 2 or 3; blocks and ranks contribute arbitrary functions of what they are handed.",
  "The regression decks have one or two blocks, run in 3D and write a handful of fields; an offset wrong for one combination of field lengths stays unseen.",
  ["src/nimble_model_data.cc", "src/nimble_model_data_base.cc", "src/nimble_data_utils.cc"],
  [("ModelData", "src/nimble_model_data.cc"), ("ModelDataBase", "src/nimble_model_data_base.cc")],
  note="Blocks, boundary conditions and the reduction over ranks are stand-ins used through arbitrary functions; the blocks themselves are C04, C07, C08, C10. Field combinations are a fixed list, sizes and values arbitrary. " + ASSUME)

P("C20", "Labels name stored components; element data are laid out and averaged by them",
  "Every component of a scalar, vector or tensor gets its own label, in the order in which components are stored, with a two-digit integration point prefix that can be added, recognised, read back and removed without loss. "
  "Element data of a block hold deformation gradient, stress and the state variables of its material for each of the 8 points in turn, are found by these labels wherever they are used, and start from the identity, zero stress and the initial values of the material "
  "(element and point numbers for the state variables so named). A derived quantity is the volume, or the volume average of exactly the requested component. Requested output names expand to all their components once, per block, in order; unknown names are rejected.",
  "Any number of elements, ids, coordinates and data values; labels and requests from a fixed list covering every length, component, 2D and 3D and several point numbers.",
  "Only the full-tensor and symmetric 3D fields of the shipped materials appear in tests; none has state variables, and a swapped label goes unnoticed unless that component is written.",
  ["src/nimble_data_utils.cc", "src/nimble_block.cc", "src/nimble_block_base.cc", "src/nimble_model_data.cc", "src/nimble_model_data_base.cc"],
  [("GetComponentLabel(s), LabelToLength, prefixes", "src/nimble_data_utils.cc"), ("InitializeElementData, DetermineDataOffsets, ComputeDerivedElementData", "src/nimble_block.cc"), ("SpecifyOutputFields", "src/nimble_model_data.cc")],
  note="Texts are a fixed list (bounded in the text), everything else is proved for all sizes and values. The element's volume average is used through an arbitrary function (C03 decides it). " + ASSUME)

P("C21", "Quasistatic integration drives the residual of every unknown below the tolerance",
  "The residual of a displacement is minus the internal force summed over the nodes that share an unknown, zero for prescribed components; its measure covers every unknown (2-norm plus 20 times the largest magnitude). "
  "Each load step moves the prescribed components, then repeats Newton steps (tangent restricted to the free unknowns, linear solve, and of the whole step and the secant step the one with the smaller residual) until the measure is at most the relative tolerance times its value at the start of the step. "
  "The run fails exactly if a linear solve fails or a step does not converge within the allowed iterations. Displacement, internal force and element data after a step, and in the output, all belong to the accepted displacement; output carries its time and happens every so many steps and at the end.",
  "The residual: any mesh and shared unknowns, any values, 2D and 3D. The integration: fixed small models (1 or 2 nodes, up to 3 load steps and 2 iterations), all values; element response, tangent and linear solver are arbitrary functions.",
  "The regression decks converge at once, so a residual over part of the unknowns, a state left from a rejected trial step or a wrong verdict at the iteration limit does not show.",
  ["src/integrators/quasistatic_time_integrator.cc", "src/nimble_boundary_condition_manager.cc", "src/nimble_boundary_condition_manager.h", "src/nimble_mesh_utils.cc", "src/nimble_linear_solver.cc"],
  [("ComputeQuasistaticResidual, Integrate", "src/integrators/quasistatic_time_integrator.cc")],
  note="Blocks, linear solver, output and application object are stand-ins used through arbitrary functions (C04, C08, C13 decide the real ones). The residual is proved without bound, the integrator for all values on fixed small models with bounded numbers of steps and iterations. "
       "Not covered: global node ids that are not 0..n-1, more than one rank. " + ASSUME, level="other")

P("C22", "Contact geometry, projections, penalty forces and the contact manager's updates",
  "A contact node or triangle carries its coordinates, box and centroid, follows the nodes it is made of (the fourth, fictitious corner is the mean of the four nodes of the face), and gives its forces back to exactly those nodes in the same shares. "
  "The projections of a node on a triangle report the closest point, its barycentric coordinates, signed gap, unit normal and the kind of contact. A penetrating pair gets equal and opposite forces of size penalty times gap, split over the corners so that their sum is the total force; a pair apart gets none. "
  "The contact manager displaces its nodes and entities by the nodal displacements, returns the force of each of its nodes and touches no other, starts each search from zero forces, refuses a penalty that is not positive, and reports the box and the number of active entities of what it holds; a face sent in a buffer arrives as it was.",
  "Any coordinates, forces, gaps and penalties, any numbers and numbering of nodes; every branch of the closest-point search. Entity arrays of 0 to 4 entities for the operations that walk over them.",
  "The contact decks run one or two geometries; a wrong edge case of the projection, a wrong share for the fictitious corner or a force added to another node changes little in them.",
  ["src/nimble_contact_entity.h", "src/nimble_contact_entity.cc", "src/nimble_contact_manager.cc", "src/nimble_contact_manager.h", "src/nimble_contact_interface.h"],
  [("ContactEntity, Projection, ClosestPointProjectionSingle, EnforceContact, ApplyDisplacements, GetForces", "src/nimble_contact_manager.cc")],
  note="Kokkos loops and atomics run as plain loops and additions. MPI_Allreduce is a stand-in (sum of this rank's value and an arbitrary one). Not covered: the searches that find the pairs (ArborX and BVH are not in this build), writing of the visualization file. " + ASSUME)

P("C24", "A reduction adds up all ranks' values at each shared node and changes no other",
  "Nodes are grouped by the set of ranks that have them: every node on two or more ranks is in exactly one communicator, of exactly those ranks, at the same place on each of them; all ranks make the same collective calls. "
  "A reduction replaces the values of each shared node by the sum over the ranks that share it, for 1, 2 or 3 values per node, in an array or through a view, whenever the sums arrive; nodes of one rank keep their values; other numbers of values are refused. The rank that counts a shared node is the lowest that has it.",
  "Packing, summing and unpacking: any values, node counts and index lists, up to two cliques, sums arriving up to three polls late. Grouping: fixed and sampled layouts of up to four ranks.",
  "The stable tests run one rank, where no node is shared.",
  ["src/nimble.mpi.rank_clique_reducer.h", "src/nimble.mpi.reduction.h", "src/nimble.mpi.reduction.cc", "src/nimble.mpi.mpicontext.h", "src/nimble.quanta.h"],
  [("pack, unpack, asyncreduce, GenerateReductionInfo, ReductionInfo", "src/nimble.mpi.reduction.h")],
  note="MPI is a stand-in that plays the ranks one after the other and computes each sum when it is found to be finished. The Tpetra path of VectorReduction is not covered. " + ASSUME, level="other")
