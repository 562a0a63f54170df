PROPS = []
def P(id, title, statement, over, for_, why, files, mech, note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, note=note, na=na, **{"for": for_}))

P("P01", "Array layouts keep every row's data through resize, compress and swap",
  "In every storage layout of the 2-D array (fixed, static, padded-max, compressed and uncompressed rows) each row has exactly the size last set for it, distinct (row, column) cells are distinct storage, and what is written to a cell is what is read back. Compressing, decompressing, resizing rows, copying and swapping change no surviving cell and no other row, and out-of-range row or column accesses are refused.",
  ["inputs", "histories"], "all row counts, row sizes, contents and sequences of resize / row resize / compress / decompress / swap / copy operations (within bounds)",
  "The tests print arrays for a few fixed shapes; they do not assert over arbitrary shapes or operation orders (an empty compressed array was broken).",
  ["src/DNDS/Array.hpp"], [("Array::Resize/ResizeRow/Compress/Decompress/SwapData", "src/DNDS/Array.hpp"), ("layout selection", "src/DNDS/Array.hpp")],
  "<=4 rows, <=3 columns, operation sequences up to length 3, every layout.")
P("P08", "Element shape functions interpolate, derive and restrict consistently",
  "For every element type the shape functions form a nodal basis (1 at their own node, 0 at others, summing to 1, and reproducing linear - for second-order elements quadratic - fields), and every tabulated derivative of order 1 to 3 is the derivative of the function. Restricted to a face of the element they are exactly the face element's shape functions at the face's nodes, so that neighbouring cells meet conformingly.",
  ["inputs", "configurations"], "every element type, every face, every point of the reference element, every node coordinates",
  "Tests evaluate a few points of a few elements by eye; polynomial identities need all points.",
  ["src/Geom/Elements.hpp", "src/Geom/Elements.cpp"], [("GetShapeFunc / GetD01Nj..GetD0123", "src/Geom/Elements.hpp"), ("ObtainFace, FaceNodes tables", "src/Geom/Elements.hpp")],
  "All 14 element types, all faces, any reference point; one known finding (14-node pyramid triangular faces).")
P("P09", "Element topology: elevation, bisection, variants and export orderings agree",
  "For every element type, the edge/face/interior nodes added on elevation lie at the mean of the vertices the tables name; bisection splits each second-order element into sub-elements that tile it (positive volumes summing to the whole, sharing its nodes); and the VTK node orders are permutations that keep each node's position. Two cells are reported connected exactly when they share the required number of vertices.",
  ["inputs", "configurations"], "every element type, bisection variant, sub-element, any node positions or numbers",
  "Tables of hundreds of integers; tests convert one or two meshes.",
  ["src/Geom/Elements.hpp", "src/Geom/Elements.cpp"], [("ObtainElevNode, GetElevNodeSpan", "src/Geom/Elements.hpp"), ("ObtainBisectElem", "src/Geom/Elements.hpp"), ("ToVTKVertsAndData", "src/Geom/Elements.hpp"), ("cellsAreFaceConnected", "src/Geom/Elements.hpp")],
  "All 7 first-order and 7 second-order types and every bisection variant.")
P("P10", "Quadrature rules integrate polynomials of their order exactly",
  "For every reference shape and every supported order, the quadrature rule integrates every polynomial of total degree up to that order exactly, has positive weights that sum to the shape's volume, and has all of its points inside the shape. Integrating through the element interface accumulates exactly the weighted sum over those points with the element's shape functions at them.",
  ["inputs", "configurations"], "every shape, order, polynomial (any coefficients) and element type",
  "A test compares a few constants; exactness is a statement about all polynomials.",
  ["src/Geom/Quadrature.hpp"], [("GetQuadratureScheme/GetQuadraturePoint", "src/Geom/Quadrature.hpp"), ("Quadrature::Integration", "src/Geom/Quadrature.hpp")],
  "All 7 shapes, orders 0..6, 14 element types; tolerance 1e-10.")
P("P11", "Polynomial bases and their derivative transforms obey calculus",
  "Every row of the 2-D and 3-D polynomial basis tables is the stated partial derivative, scaled by the cell lengths, of the monomials in the first row, for all sizes of derivative and basis sets. Compact inner products of derivatives equal the full symmetric-tensor contraction, derivatives transform as tensors under linear maps and by the chain rule under nonlinear maps, and the derivatives computed for an inverse map compose with the map's to the identity.",
  ["inputs", "configurations"], "dimensions 2 and 3, derivative orders 0..3, any point, cell lengths, derivative values and transforms",
  "The only test checks one random inversion; the tables have hundreds of hand-written entries in 20 size combinations.",
  ["src/Geom/BaseFunction.hpp", "src/Geom/DiffTensors.hpp", "src/Geom/EigenTensor.hpp"], [("FPolynomialFill2D/3D", "src/Geom/BaseFunction.hpp"), ("NormSymDiffOrderTensorV, TransSymDiffOrderTensorV, ConvertDiffsLinMap, ConvertDiffsFullMap, DxDxi2DxiDx", "src/Geom/DiffTensors.hpp")],
  "Orders up to 3; inverse maps around 3 fixed Jacobians (2 free entries in 2D).")
P("P12", "Periodic maps, bits and face ids are exact, invertible and consistent",
  "A periodic face id belongs to exactly one pair and one side, and each main side has its donor. Crossing a pair rotates points about the pair's centre and translates them, and rotates vectors, matrices and derivative tensors with the same rotation; the backward transform exactly undoes the forward one, singly or through any combination of node period bits. Two node rows match across a periodic shift exactly when their bits differ by one constant; rotation matrices and local bases are orthonormal and right-handed.",
  ["inputs", "configurations"], "all face ids, bit patterns and rows, rotations, centres, translations, points, vectors and derivative tensors",
  "Tests use one translation-periodic mesh; inverses must hold for every rotation and bit combination.",
  ["src/Geom/PeriodicInfo.hpp", "src/Geom/Geometric.hpp", "src/Geom/BoundaryCondition.hpp", "src/Geom/BaseFunction.hpp"], [("Periodicity::Trans*/ByBits", "src/Geom/PeriodicInfo.hpp"), ("CFVPeriodicity", "src/Geom/BaseFunction.hpp"), ("FaceIDIs*", "src/Geom/BoundaryCondition.hpp"), ("RotateAxis, NormBuildLocalBaseV", "src/Geom/Geometric.hpp")],
  "Rows <=4, derivative order <=3; rotations from any quaternion (sin/cos axiomatised by sin^2+cos^2=1).")
P("P17", "Slope limiters are bounded averages that keep agreement and rotations",
  "Every two-slope and multi-slope limiter returns 0-or-same-sign values bounded by its inputs as its definition states (a convex weighted average for WBAP, zero on sign conflict for the minmod family), returns the common value when the inputs agree, and never divides by zero. The polynomial-norm limiters weight whole derivative blocks by a rotation-invariant norm, so they return the common polynomial when all candidates agree and never exceed the largest candidate.",
  ["inputs", "configurations"], "all slopes, weights, limiter kinds, dimensions 2 and 3, derivative orders 1 to 3",
  "No test runs a limiter over more than a few values; bounds are inequalities over all slopes.",
  ["src/CFV/Limiters.hpp"], [("FWBAP_L2_Biway* / Multiway*", "src/CFV/Limiters.hpp"), ("FMEMM_Biway*", "src/CFV/Limiters.hpp")],
  "Slopes in [2^-10,8] and exact zeros; <=4 slopes; coefficient blocks with one or more free entries.")
P("P18", "Ideal-gas states, eigenvectors and fluxes agree with the equations of state",
  "Conservative-to-primitive conversion and its inverse undo each other and satisfy the ideal-gas law, total pressure/temperature and speed of sound included; extra transported variables are scaled by density both ways. The left and right eigenvector matrices of the flux Jacobian are inverse to each other and diagonalise it. The inviscid flux through any normal on a moving face, single or batched, equals the Euler flux, its increment is the exact derivative, and primitive gradients follow from conservative ones by the chain rule.",
  ["inputs", "configurations"], "all states with positive density and pressure, gamma, normals, grid velocities, gradients; 2-D and 3-D",
  "A handful of fixed states cannot establish an identity in ten variables.",
  ["src/Euler/Gas.hpp"], [("IdealGasThermal*, EulerGasRightEigenVector/LeftEigenVector, GasInviscidFlux*, GradientCons2Prim_IdealGas", "src/Euler/Gas.hpp")],
  "Bounded boxes of states; 2 extra variables.")
P("P19", "Numerical fluxes are consistent, conservative and upwind for all solvers",
  "For every Riemann solver the numerical flux of two equal states equals the exact flux through the face for any normal and grid motion; swapping the sides and flipping the normal changes only the sign (nothing is created at a face); the Roe average satisfies the jump condition; supersonic flow takes the upwind flux; contact-preserving solvers keep a stationary contact exactly; and batched evaluation equals face-by-face evaluation.",
  ["inputs", "configurations"], "all solvers, states, normals, grid velocities within the stated boxes",
  "Conservation and consistency are equalities over all pairs of states; tests run one or two cases (an HLLC moving-face and an HLLEP orientation defect went unnoticed).",
  ["src/Euler/Gas.hpp"], [("RoeFlux*, HLLEPFlux_IdealGas, HLLCFlux_IdealGas_HartenYee, InviscidFlux_IdealGas_Dispatcher", "src/Euler/Gas.hpp")],
  "9 solver types; mirror symmetry at 3 base pairs of states with free directions; one known finding (Roe_M1 batch).")
P("P20", "Viscous fluxes equal Newtonian stress and Fourier heat conduction",
  "The viscous flux through any face has no mass component, a momentum component equal to the Newtonian (trace-free) stress on the normal, optionally corrected by the quadratic constitutive relation, and an energy component equal to the work of that stress plus Fourier conduction of the temperature gradient; on an adiabatic face no heat crosses.",
  ["inputs", "configurations"], "all states, gradients, normals, viscosities, conductivities; 2-D and 3-D",
  "No test evaluates the viscous flux against its definition.",
  ["src/Euler/Gas.hpp"], [("ViscousFlux_IdealGas", "src/Euler/Gas.hpp")],
  "Gradients in [-2,2].")
P("P21", "Positivity scaling keeps density and internal energy above the floor",
  "The compression ratio of an increment lies in [0,1], and the state plus ratio times increment keeps positive density and internal energy at or above the requested floor, for either scheme and any increment.",
  ["inputs", "configurations"], "increments with free components around fixed admissible states, both schemes",
  "The failing increments lie on thin sets (roots of a quadratic) that samples miss.",
  ["src/Euler/Gas.hpp"], [("IdealGasGetCompressionRatioPressure", "src/Euler/Gas.hpp")],
  "3 base states, 2 free components of the increment, 2 floors.")
P("P22", "Bisection keeps its bracket and never overshoots the target",
  "The lower-bound bisection returns a point at which the function does not exceed the target, within one halved interval below a point where it does, for every continuous function, bracket and iteration count; for a monotone function the root is bracketed.",
  ["inputs"], "any function values at the queried points, any bracket, any iteration count",
  "A property of all functions.",
  ["src/Solver/Scalar.hpp"], [("BisectSolveLower", "src/Solver/Scalar.hpp")],
  "0..6 iterations.")
P("P02", "Global, local and ghost indices map onto each other on every rank",
  "With any distribution of rows over ranks, global indices and (rank, local) pairs map one-to-one onto each other, an index that names no row is not found, and a rank or local index out of range is refused. A ghost mapping built from any list of requested rows, or of rows to push, holds every requested row exactly once, in ascending order and grouped by owner; searching it finds a row exactly when the rank owns or ghosts it, in the right place, and the mapping's inverse returns the row. What one rank pulls is what the owner pushes, in the same order.",
  ["inputs", "configurations", "schedules"], "any rank lengths, request lists (any order, duplicates, own rows), queries, message timings",
  "Tests run one distribution on one rank count; a wrong offset shows only for particular request lists.",
  ["src/DNDS/IndexMapping.hpp"], [("GlobalOffsetsMapping", "src/DNDS/IndexMapping.hpp"), ("OffsetAscendIndexMapping", "src/DNDS/IndexMapping.hpp")],
  "<=3 ranks; lengths up to 2^40 for global mapping, <=2 rows and requests per rank for ghost mapping; MPI is a checked model.")
P("P03", "Ghost pull and push move exactly the right rows, whatever the transport",
  "After a pull every ghost row has the size and contents of its owner's row, and the owners' rows are unchanged; after a push every owner row holds what its ghost copy held (one of them if several), other rows and the ghosts are unchanged. This holds for every storage layout and element type, for once-only and repeated persistent transfers, for derived-type, one-by-one and in-situ packed transfers, with messages early or late and blocking, lazy or synchronised waits, and for ranks with nothing to send or receive: no transfer deadlocks, truncates a message, or mismatches types.",
  ["inputs", "configurations", "schedules"], "any row contents, row sizes, ghost sets, layouts, transports and message timings",
  "Tests use one transport on well-filled arrays; the one-by-one push deadlocked and the packed transport failed on padded or empty rows unnoticed.",
  ["src/DNDS/ArrayTransformer.hpp", "src/DNDS/IndexMapping.hpp", "src/DNDS/MPI.hpp", "src/DNDS/MPI.cpp"], [("ArrayTransformer::createGhostMapping/createMPITypes", "src/DNDS/ArrayTransformer.hpp"), ("init/start/wait/clearPersistentPull/Push, pullOnce, pushOnce", "src/DNDS/ArrayTransformer.hpp"), ("MPI::WaitallAuto, CommStrategy", "src/DNDS/MPI.cpp")],
  "2 ranks of <=2 rows, 3 ranks of <=1 row; row sizes <=2; MPI is a checked model with two delivery timings.")
P("P05", "Object pools hand out each object once and get every one back",
  "An object handed out by the pool belongs to one handle only and keeps its contents; when its handle is dropped, or assigned another object, the object returns to the pool (or is destroyed with it), once. The pool hands out a stored object exactly when it has one, an allocating request always yields an object, and sizing the pool makes exactly that many objects from the given arguments.",
  ["histories"], "any history of get, allocating get, drop, move, move-assignment, pool resize and pool destruction",
  "Leaks and double hand-outs depend on the order of operations; move-assignment lost an object.",
  ["src/DNDS/ObjectPool.hpp"], [("ObjectPool::get/getAlloc/getAllocInit/resize/resizeInit, ObjectPoolAllocated", "src/DNDS/ObjectPool.hpp")],
  "Histories of 4 operations over 3 handles; pools of <=3 objects.")
P("P07", "Index arithmetic never silently overflows and integer helpers are exact",
  "Checked addition reports overflow exactly when the sum does not fit and otherwise returns the exact sum; narrowing conversions keep values that fit and refuse the others; accumulating row sizes gives the partial sums or is refused; uniformity of a list is recognised exactly; ceiling division rounds up; the floating modulus lies in [0, divisor) and is congruent; and walking two ascending lists visits each common value exactly once until told to stop.",
  ["inputs"], "all integer values of 8 to 64 bits, lists of up to 4 values",
  "Boundary values of four integer widths in both signs; ceiling division was wrong for every quotient above one.",
  ["src/DNDS/Defines.hpp"], [("signedIntWillAddOverflow, signedIntSafeAdd, size_t_to_signed, checkedIndexTo32, AccumulateRowSize, checkUniformVector, divCeil, divide_ceil, float_mod, iterateIdentical", "src/DNDS/Defines.hpp")],
  "All bit patterns; lists <=4; division by 16-bit values or small divisors.")
P("P24", "MPI wrappers deliver collective data exactly, on every rank, in order",
  "The wrapped collectives (all-gather, all-to-all with and without counts, broadcast, reductions, scans, barriers) leave on each rank exactly what MPI defines, with blocking and with lazy polling waits, and write nothing else; running ranks serially executes every rank once, one at a time, in rank order; and the MPI type chosen for an element type covers exactly its bytes.",
  ["inputs", "configurations", "schedules"], "any data, counts, displacements, roots, rank counts and wait modes (within bounds)",
  "Tests run on one process count with friendly counts.",
  ["src/DNDS/MPI.hpp", "src/DNDS/MPI.cpp"], [("MPI::Bcast/Alltoall/Alltoallv/Allreduce/Scan/Allgather/Barrier/WaitallAuto/BarrierLazy", "src/DNDS/MPI.cpp"), ("MPISerialDo, BasicType_To_MPIIntType", "src/DNDS/MPI.hpp")],
  "<=4 ranks, <=2 elements per block; MPI is a checked model.")
P("P04", "Matrix, vector, adjacency and pair views show exactly their rows",
  "Views of array rows as adjacency lists, vectors, matrices, batches of differently sized matrices and batches of equal matrices have exactly the size the row was given (reported sizes included), read what was written through any of them, and share storage with no other row; resizing or rewriting one leaves all others, and copies of the array, unchanged; swapping exchanges contents and sizes. A pair numbers its own rows first and its ghosts after them, and after swapping two pairs further pulls still fill the ghosts. Access out of range and assignments of another size are refused.",
  ["inputs", "configurations", "histories"], "any entries, positions, row sizes and matrix sizes (within bounds), every layout and every combination of fixed, run-time and per-matrix sizes",
  "Tests touch one combination of template sizes; four combinations reported or kept wrong sizes.",
  ["src/DNDS/ArrayDerived/ArrayAdjacency.hpp", "src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp", "src/DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp", "src/DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp", "src/DNDS/ArrayDerived/ArrayEigenVector.hpp", "src/DNDS/ArrayPair.hpp"], [("AdjacencyRow", "src/DNDS/ArrayDerived/ArrayAdjacency.hpp"), ("ArrayEigenMatrix", "src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp"), ("MatrixBatch", "src/DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp"), ("ArrayPair", "src/DNDS/ArrayPair.hpp")],
  "<=2 rows, matrices up to 2x2, <=2 matrices per batch; pair swapping on 2 ranks.")
P("P06", "What is written to a restart file is read back, on every rank",
  "Scalars, strings (the empty one too), vectors, byte arrays, arrays of every layout, matrix arrays, pairs with their ghosts and periodicity data written to an HDF5 file are read back on the same number of ranks with exactly the contents, sizes and structure each rank wrote, whatever the path, chunking, compression and collective settings; vectors shared when written are shared when read, and others are not, however long the caller keeps them; after reading a pair its ghost mapping works. All ranks make the same collective calls. The JSON document keeps the same contents. Missing names, other rank counts and other element or row sizes are refused.",
  ["inputs", "configurations", "histories"], "any contents, sizes, ghost sets, paths, sharing patterns and file settings (within bounds), every layout",
  "Tests write one happy-path array set; empty parts, shared vectors, padding and compression settings multiply beyond sampling.",
  ["src/DNDS/SerializerH5.cpp", "src/DNDS/SerializerH5.hpp", "src/DNDS/SerializerJSON.cpp", "src/DNDS/SerializerBase.hpp", "src/DNDS/Array.hpp", "src/DNDS/ArrayPair.hpp", "src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp", "src/DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp", "src/Geom/PeriodicInfo.hpp"], [("SerializerH5", "src/DNDS/SerializerH5.cpp"), ("SerializerJSON", "src/DNDS/SerializerJSON.cpp"), ("Array::WriteSerializer/ReadSerializer", "src/DNDS/Array.hpp"), ("ArrayPair::WriteSerialize/ReadSerialize", "src/DNDS/ArrayPair.hpp")],
  "<=3 ranks, <=2 rows or entries per rank; HDF5 and MPI are checked models, zlib and base64 invertible stand-ins, JSON text and file IO left out.")
P("P13", "Cell reorderings are permutations that number by graph distance",
  "For every local adjacency graph, connected or not, each reordering (reverse Cuthill-McKee, Boost RCM, minimum degree, METIS) returns two mutually inverse permutations of all vertices and the bandwidths it reports are those of the graph before and after. The reverse Cuthill-McKee order numbers connected parts contiguously and by distance from their root; breadth-first layers are graph distances. Graphs that are not symmetric or repeat an edge, and roots outside the graph, are refused. METIS and minimum degree are handed exactly the graph.",
  ["inputs"], "any undirected graph (within bounds), any neighbour order, any permutation returned by the external orderings",
  "Tests order one connected mesh; disconnected parts, isolated vertices and asymmetric adjacency are never sampled.",
  ["src/Geom/CorrectRCM.hpp", "src/Geom/SerialAdjReordering.hpp"], [("CuthillMcKeeOrdering", "src/Geom/CorrectRCM.hpp"), ("BreadthFirstSearch", "src/Geom/CorrectRCM.hpp"), ("ReorderSerialAdj_*", "src/Geom/SerialAdjReordering.hpp")],
  "<=5 vertices; METIS_NodeND and boost::minimum_degree_ordering stand for any permutation (their own code is third-party; Boost's minimum degree code reads one bucket past its list on complete graphs, harmless with NDEBUG).")
P("P14", "Sparse LU and LDLT factorizations solve the system they are given",
  "For every symmetric sparsity pattern and fill ordering, the symbolic factorization holds exactly the matrix entries plus the fill its code allows (complete, none, or within the widened stencil), sorted, symmetric, and identical in old and new numbering; transposed and neighbour positions point at the right entries. The matrix-vector product is that of the stored matrix, and the complete LU and LDLT decompositions (both LU variants, scalar and block) followed by Solve return x for A x; incomplete factors reproduce the matrix on their structure.",
  ["inputs", "configurations"], "any symmetric pattern, ordering, fill code, factor entries and right-hand side (within bounds)",
  "Tests factor one mesh; index bookkeeping errors show only for some patterns, orderings and fill codes.",
  ["src/Solver/Direct.hpp", "src/Euler/EulerJacobian.hpp"], [("ObtainSymmetricSymbolicFactorization", "src/Solver/Direct.hpp"), ("LocalLUBase", "src/Solver/Direct.hpp"), ("LocalLDLTBase", "src/Solver/Direct.hpp"), ("JacobianLocalLU/LDLT", "src/Euler/EulerJacobian.hpp")],
  "<=4 unknowns (scalar), <=3 (2x2 blocks); real arithmetic; matrices given by their factors with nonzero pivots.")
P("P15", "Krylov solvers return the minimal-residual or exact solution",
  "For every nonsingular system, preconditioner, right-hand side and start, one GMRES cycle leaves the minimal residual over its subspace (and the exact solution for a full or invariant subspace, zero right-hand sides included), the stop criterion is shown the true preconditioned residual and reference norms, restarts are counted and success reported as documented; preconditioned conjugate gradients solve an n-unknown symmetric positive definite system in n iterations however they are split over calls, and a reset forgets the previous system.",
  ["inputs", "configurations"], "any matrix, preconditioner, right-hand side, start, subspace size and restart limit (within bounds)",
  "Tests run one system to convergence, which hides lost columns, stale directions and breakdowns: the iteration still converges, only slower, or fails for systems no test uses.",
  ["src/Solver/Linear.hpp"], [("GMRES_LeftPreconditioned::solve", "src/Solver/Linear.hpp"), ("PCG_PreconditionedRes::solve", "src/Solver/Linear.hpp")],
  "<=2 unknowns, subspace <=3; real arithmetic; the dense least-squares kernel (Eigen SVD) is replaced by exact normal equations.")
P("P16", "Time integrators solve the scheme they name, at its order",
  "For every stiffness, forcing, time step and step history, each step of the implicit Euler, BDF1-4, variable-step BDF1-2, SDIRK4/ESDIRK4, Hermite-3 and SSPRK3 integrators is the step of the named scheme: polynomial solutions of the scheme's order are reproduced, linear problems agree with the exact solution up to that order, the residual handed to the implicit solver is that of the scheme's own equation at the stage's own time, each solved increment is applied once, the positivity-preserving variants limit exactly the increment they use, and the reported latest right-hand side is that of the result.",
  ["inputs", "configurations", "histories"], "any linear problem, polynomial forcing, time-step history, scheme and limiting factor (within bounds)",
  "A wrong coefficient, stage time or stale history only lowers the order of accuracy; tests that compare one coarse run with a tolerance pass.",
  ["src/Solver/ODE.hpp"], [("ImplicitBDFDualTimeStep", "src/Solver/ODE.hpp"), ("ImplicitVBDFDualTimeStep", "src/Solver/ODE.hpp"), ("ImplicitSDIRK4DualTimeStep", "src/Solver/ODE.hpp"), ("ImplicitHermite3SimpleJacobianDualStep::Step", "src/Solver/ODE.hpp"), ("ExplicitSSPRK3TimeStepAsImplicitDualTimeStep", "src/Solver/ODE.hpp")],
  "Scalar problems; <=6 steps for BDF, <=3 for VBDF, <=2 for Runge-Kutta and Hermite-3; dt in [1/8,2]; real arithmetic. StepNested has no caller and is outside.")
P("P23", "Distributed solution vectors obey the algebra the solvers assume",
  "For every cell count and content, the element-wise operations of the solution, reconstruction and gradient vectors (set, assign, add, scale, add-scaled, multiply, divide, bounds, per-variable and per-cell factors) change every own and ghost cell exactly as named and leave the other operand alone; norms, dot products (plain, weighted, per variable), 1-norms and minima count every own cell of every rank once, no ghost, and agree on all ranks; the block-diagonal Jacobian multiplies and inverts what was last added to it.",
  ["inputs", "configurations"], "any cell values, factors, cell counts per rank and rank counts (within bounds)",
  "Tests run the solver on one partition; a ghost counted twice or a stale inverse changes convergence, not the tests' result.",
  ["src/Euler/Euler.hpp", "src/Euler/EulerJacobian.hpp"], [("ArrayDOFV", "src/Euler/Euler.hpp"), ("ArrayRECV", "src/Euler/Euler.hpp"), ("ArrayGRADV", "src/Euler/Euler.hpp"), ("JacobianDiagBlock", "src/Euler/EulerJacobian.hpp")],
  "<=3 ranks, <=2 own cells, 1 ghost, 2 variables; real arithmetic; OpenMP off as in the build.")
P("P25", "Distributed meshes keep the input mesh's cells, faces and neighbours",
  "A serial mesh distributed over any number of ranks by any assignment of its cells is the same mesh: every cell, node and boundary is owned by exactly one rank (cells where they were assigned, boundaries with their cell) and keeps its type, nodes, order and coordinates, periodic images included; own cells find all their neighbours, which are the cells sharing a node; METIS is handed exactly the graph of cells sharing a face. Built faces are exactly the faces of the cells, owned once, alike on every rank, with the right two cells, boundary id and periodic side. Node, face and cell lists invert each other, survive reordering the local cells, conversion to global numbers and back, and writing and reading the mesh; VTK connectivity, the boundary mesh and the serial mesh for output describe the same cells; every rank gives the same answer on the order of the mesh.",
  ["inputs", "configurations", "histories"], "any assignment of cells to ranks, input order and node heights, on meshes of every first order shape, second order and periodic meshes (within bounds)",
  "Tests load a few large meshes on fixed ranks and look at counts; two cells meeting twice, empty ranks and rebuilding output broke unseen.",
  ["src/Geom/Mesh.cpp", "src/Geom/Mesh.hpp", "src/Geom/Mesh_Serial_Partition.cpp", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp"], [("UnstructuredMesh::InterpolateFace/BuildGhostPrimary/ReorderLocalCells/ConstructBndMesh/WriteSerialize/ReadSerialize", "src/Geom/Mesh.cpp"), ("UnstructuredMeshSerialRW::PartitionReorderToMeshCell2Cell/BuildSerialOut", "src/Geom/Mesh.cpp"), ("MeshPartitionCell2Cell, GetCell2CellFaceVLocal", "src/Geom/Mesh_Serial_Partition.cpp"), ("Deduplicate1to1Periodic, BuildCell2Cell, RecreatePeriodicNodes, BuildVTKConnectivity", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp")],
  "8 meshes of 1..9 cells, 1..2 ranks; METIS is any partition; MPI and HDF5 are checked models; CGNS and OpenFOAM reading left out; recovering adjacency is not asked of meshes two cells wide in a periodic direction, which it refuses.")
P("P26", "Elevated and bisected meshes fit together and fill the mesh they came from",
  "Raising a distributed first order mesh to second order gives every cell and boundary its second order type with the old nodes first and the new ones in the middle of their edges, faces and cells, one node for each edge, face and cell whichever rank asks, periodic images included. Bisecting it splits every cell into its parts, made of the parent's nodes and kept on its rank; the parts' faces match one to one or are parts of boundaries that keep their id; neighbours, node lists and faces of the new mesh are those of the parts. All of it is again a correctly distributed mesh.",
  ["inputs", "configurations"], "any assignment of cells to ranks, input order and node heights, on meshes of every first order shape and periodic meshes (within bounds)",
  "The tests elevate no mesh across ranks with periodic sides; a node shared wrongly shows only as a gap or overlap.",
  ["src/Geom/Mesh_Elevation.cpp", "src/Geom/Mesh.cpp", "src/Geom/Elements.hpp"], [("BuildO2FromO1Elevation, BuildBisectO1FormO2", "src/Geom/Mesh_Elevation.cpp"), ("RecoverNode2CellAndNode2Bnd, RecoverCell2CellAndBnd2Cell", "src/Geom/Mesh.cpp")],
  "7 meshes of 1..9 cells, 1..2 ranks, one bisection; periodic directions three cells wide; smoothing of elevated boundaries left out.")
P("P27", "Variational reconstruction is exact for polynomials and consistent",
  "On any mesh and distribution: cell volumes, barycentres, face areas and normals are those of the cells, normals point from the first to the second cell and close every cell; base functions have no mean. A polynomial of the reconstruction's degree, with its cell means and boundary values, is reproduced: its coefficients give its values and derivatives alike from both sides of every face, and iterations (Jacobi and SOR, into either array) leave them alone, for every weighting, base, quadrature and caching setting; least-squares and GGMP gradients are exact for linear fields. For any coefficients and means, an iteration moves a cell by its relaxed increment, a sweep using what the cells before have become; the linearised iteration is the change of the increment; the SOR preconditioner keeps the solution of the linearised system; results do not depend on the distribution nor on where a periodic mesh is cut.",
  ["inputs", "configurations"], "any coefficients of the polynomial, or any reconstruction coefficients and means, and any assignment of cells to ranks (within bounds)",
  "The repository tests no reconstruction; a lost order of accuracy or a wrong boundary term only shows as a slightly wrong flow.",
  ["src/CFV/VariationalReconstruction.cpp", "src/CFV/VariationalReconstruction.hpp", "src/CFV/VariationalReconstruction_Reconstruction.hxx", "src/DNDS/HardEigen.cpp"], [("ConstructMetrics, ConstructBaseAndWeight, ConstructRecCoeff", "src/CFV/VariationalReconstruction.cpp"), ("FDiffBaseValue, GetIntPointDiffBaseValue, FFaceFunctional", "src/CFV/VariationalReconstruction.hpp"), ("DoReconstructionIter, DoReconstructionIterDiff, DoReconstructionIterSOR, DoReconstruction2nd, DoReconstruction2ndGrad", "src/CFV/VariationalReconstruction_Reconstruction.hxx")],
  "9 concrete meshes of 2..9 cells with plane sides, degree 1..3 (2-D) and 1..2 (3-D), one variable, 4 groups of settings; boundary weights as the Euler solver sets them; rotational periodicity and the limiters left out; reals are exact in the symbolic part, tolerance 1e-7.")
PROPS.sort(key=lambda p: p["id"])
