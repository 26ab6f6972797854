#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code because JSON lines are unreadable to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=["include/GooseFEM/" + f for f in files],
        state=[dict(name=a, meaning=b, where="include/GooseFEM/" + c) for a, b, c in state],
        mechanism=[dict(name=a, where="include/GooseFEM/" + c) for a, c in mech],
        observe_at=list(observe), hook_needed=hook)))

p("C01", "DOF, nodal and element vector conversions are right on any team of threads",
  "For every connectivity and DOF numbering (including DOFs shared between nodes), converting between DOF values, nodal vectors and element vectors gathers exactly the value of the DOF or node each entry belongs to, and assembling nodal or element vectors gives every DOF or node the exact sum of all its contributions, each counted once. "
  "The result has the documented shape and is the same whatever the number of worker threads, the way they interleave, and whatever the output array held before.",
  ["schedules", "inputs", "configurations"], "every team size granted by the threading runtime, every interleaving of its members, every connectivity/numbering, every prior content of fresh memory",
  "The tests are built without threads and use a handful of tiny meshes with natural numbering; a race, a lost contribution or a wrong index on shared DOFs needs a particular interleaving or numbering.",
  ["Vector.h", "Element.h", "Allocate.h"],
  [("serial accumulation in assemble*, disjoint or idempotent writes in the parallel as*/copy loops", "Vector.h"), ("asElementVector / assembleNodeVector", "Element.h")],
  observe=["Vector::AsDofs/AsNode/AsElement/AssembleDofs/AssembleNode/Copy and their output-argument forms", "Element::asElementVector, Element::assembleNodeVector"])

p("C02", "Partitioned and tied vector conversions are right on any team of threads",
  "For every split of the DOFs into unknown and prescribed, and every set of linear DOF dependencies, extracting the unknown or prescribed part of a DOF, nodal or element vector, recombining the parts, copying one part from one nodal vector to another, and condensing a nodal vector onto the independent DOFs (adding to each the dependent values weighted by their dependency) gives exactly the entries defined by the partition and the dependencies, leaving all other entries alone. "
  "Splitting and recombining loses nothing, and nothing depends on the number of threads, their interleaving, or earlier memory content.",
  ["schedules", "inputs", "configurations"], "every partition, tying matrix, team size, interleaving and prior memory content",
  "Tests run single-threaded on one or two regular meshes with one partition each.",
  ["VectorPartitioned.h", "VectorPartitionedTyings.h", "Vector.h"],
  [("m_part renumbering and per-DOF parallel loops", "VectorPartitioned.h"), ("Cdi * u_i for dependent DOFs", "VectorPartitionedTyings.h")],
  [("m_part", "position of each DOF in the [unknown, prescribed] order", "VectorPartitioned.h")],
  ["VectorPartitioned::asDofs_u/_p, dofsFromParititioned, nodeFromPartitioned, elementFromPartitioned, copy_u/_p", "VectorPartitionedTyings::asDofs_i, copy_p"])

p("C03", "Element quadrature fields are right on any team of threads",
  "For every mesh of quadrilateral (plane, plane-strain with thickness, axisymmetric) or hexahedral elements with valid geometry, interpolation to integration points, the gradient and symmetric gradient of nodal fields, integration-point volumes, and the integrals of shape-function and gradient products with a quadrature-point field equal their element-by-element definition to rounding. "
  "This holds for every integration scheme, every number of threads and every interleaving, for both the returning and the output-argument form.",
  ["schedules", "inputs", "configurations"], "all valid element geometries (distorted, rotated), nodal fields, schemes, team sizes, interleavings, prior memory content",
  "Tests use one undistorted axis-aligned mesh, one thread, and few fields: wrong off-diagonal Jacobian terms or shared scratch between threads are invisible there.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h"],
  [("per-element parallel loops with private temporaries", "Element.h"), ("specialised kernels", "ElementQuad4.h")],
  observe=["Quadrature*::InterpQuad_vector, GradN_vector(_T), SymGradN_vector, Int_N_vector_dV, Int_N_scalar_NT_dV, Int_gradN_dot_tensor2_dV, Int_gradN_dot_tensor4_dot_gradNT_dV, dV, GradN, AsTensor"])

p("C04", "Quadrature always reflects the nodal coordinates of the last accepted update",
  "After any sequence of coordinate updates, each accepted or failed (rejected argument, memory exhausted), every answer of a quadrature object equals that of an object newly constructed from one single set of coordinates: that of the last accepted update. "
  "A failed update may leave the object on the coordinates before or after it, but never on a mixture of the two, and later accepted updates repair it fully.",
  ["histories", "fault_sequences", "schedules"], "all interleavings of updates and queries, all allocation-failure points, all team sizes",
  "Tests never update coordinates more than once, never fail an allocation, and never use a quadrature object after an exception.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h"],
  [("update_x recomputes the cached gradients and volumes", "Element.h")],
  [("m_x, m_dNx, m_vol", "cached coordinates, shape-function gradients and volumes", "Element.h")],
  ["update_x then dV/GradN/any integral"])

p("C05", "A sparse matrix always holds what its history of operations says",
  "After any sequence of assembling, setting and adding blocks (tied matrices: assembling), in any order and with any DOF numbering, partition or tying, the matrix (plain, partitioned or tied) equals the one obtained by applying the same operations to a dense array: assembling replaces the whole content by the sum of all element contributions, setting replaces the whole content by the given entries, adding adds the given entries, and dense copies, sub-matrices and (plain and partitioned) products reflect exactly the present content. "
  "This does not depend on the number of threads or their interleaving.",
  ["histories", "schedules", "inputs"], "all operation sequences, numberings with repeated DOFs, partitions, team sizes",
  "Tests assemble once and multiply once; set/add histories, repeated and empty index lists, and re-assembly on a used object are not exercised.",
  ["Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h"],
  [("triplet lists rebuilt per assembly, coeffRef updates in set/add", "Matrix.h")],
  [("m_A / m_Auu, m_Aup, m_Apu, m_App", "sparse content", "MatrixPartitioned.h"), ("m_T", "triplets", "Matrix.h")],
  ["Matrix*::assemble, set, add, Dot, dot, Todense, Reaction, Reaction_p"])

p("C06", "Solving always answers for the present content of the matrix",
  "After any interleaving of changes to a matrix and solves with its solver, a solve returns the solution for the matrix content and the prescribed values at the time of that solve, never for an earlier content: multiplying the answer by the matrix restores the right-hand side on the unknown DOFs, prescribed values come back untouched and dependent DOFs follow their tying. "
  "DOF, nodal and unknown-only forms of the same solve agree.",
  ["histories", "schedules", "inputs"], "all interleavings of assemble/set/add/solve, all partitions and tyings, all team sizes",
  "Tests solve once per matrix (or at most re-solve after one re-assembly); stale factorisations and differing forms appear only in longer histories.",
  ["Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h", "MatrixDiagonal.h"],
  [("factorisation refreshed when the matrix reports a change", "Matrix.h")],
  [("m_changed / m_factor", "factorisation validity", "Matrix.h")],
  ["MatrixSolver::Solve/solve, MatrixPartitionedSolver::Solve/Solve_u, MatrixPartitionedTyingsSolver::Solve/Solve_u"])

p("C07", "Solvers and matrices may be combined freely",
  "Several solvers used with one matrix, and one solver used with several matrices, give in any order of changes and solves exactly the answers each matrix would give with a fresh solver.",
  ["histories", "schedules"], "all interleavings of changes and solves over several matrices and solvers",
  "No test uses more than one solver per matrix or one solver for two matrices, though the interface offers it.",
  ["Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h"],
  [("change tracking between matrix and solver", "Matrix.h")],
  [("m_changed, m_factor", "one flag per matrix and one per solver", "Matrix.h")],
  ["Matrix*Solver::Solve on pairs"])

p("C08", "Diagonal matrices hold, multiply and invert what their history says",
  "After any sequence of assembling, setting and solving with a diagonal matrix (plain or partitioned), its entries equal the sum of the element contributions (or the values set) per DOF, products multiply entry by entry and solves divide by the present entries on the unknown DOFs, leaving prescribed values untouched. "
  "This holds for every numbering, partition, number of threads and interleaving.",
  ["histories", "schedules", "inputs"], "all histories, numberings, partitions, team sizes",
  "Tests use one assembly and one product, single-threaded.",
  ["MatrixDiagonal.h", "MatrixDiagonalPartitioned.h"],
  [("cached inverse refreshed after change", "MatrixDiagonal.h"), ("separate uu/pp inverse", "MatrixDiagonalPartitioned.h")],
  [("m_inv / m_inv_uu, m_factor", "cached inverse", "MatrixDiagonal.h")],
  ["MatrixDiagonal*::assemble, set, Dot, dot, Solve, solve, Todiagonal, data"])

p("C09", "Partitioned reactions and partial products agree with the full matrix",
  "For every partitioned matrix (sparse or diagonal), partition and history, the reaction computed in DOF form, nodal form and prescribed-only form equals the full matrix product restricted to the prescribed DOFs, with all other entries of the external-force array untouched. The prescribed-only form and, for the diagonal matrix, products of the unknown or prescribed rows take and give just those rows of the full product.",
  ["histories", "schedules", "inputs"], "all partitions, histories, team sizes, prior memory content",
  "Only the nodal form is tested, once, on a regular mesh.",
  ["MatrixPartitioned.h", "MatrixDiagonalPartitioned.h", "VectorPartitioned.h"],
  [("Apu*u_u + App*u_p", "MatrixPartitioned.h"), ("diagonal pp product", "MatrixDiagonalPartitioned.h")],
  [("m_iip, m_nnp", "prescribed DOFs of the matrix", "MatrixDiagonalPartitioned.h")],
  ["Reaction, reaction, Reaction_p (both matrices)", "MatrixDiagonalPartitioned::Dot_u, Dot_p, data_uu, data_pp"])

p("C10", "A failed matrix operation never causes a wrong answer later",
  "When an assemble, set, add or solve fails (memory exhausted part-way, factorisation failed, argument rejected), every matrix and solver involved stays usable: a rejected argument leaves the content as it was; after memory exhaustion, whatever content the matrix then reports, later products and solves agree with that content; a failed factorisation is not mistaken for a finished one; a later successful assembly gives exactly the assembled matrix, and operations on other objects are unaffected.",
  ["fault_sequences", "histories"], "every allocation of every operation may be the one that fails, at any point of any history",
  "No test fails an allocation or continues after an exception.",
  ["Matrix.h", "MatrixDiagonal.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h", "MatrixDiagonalPartitioned.h"],
  [("change flag raised with respect to content modification", "Matrix.h")],
  [("m_changed", "content differs from factorisation", "Matrix.h")],
  ["operation that threw, followed by Todense/Dot/Solve"])

p("C11", "Stitching tracks every mesh through any sequence of additions",
  "After any sequence of adding meshes, each with nodes further apart than the tolerance (with overlap found by position or given explicitly), the combined mesh contains every element of every added mesh with its nodes at their original positions, overlapping nodes merged into one, no node left over, and the per-mesh maps translate node and element numbers and sets of each added mesh to the combined mesh exactly, whichever mesh they came from. "
  "Each addition leaves the node and element numbering already handed out unchanged.",
  ["histories", "inputs"], "all sequences of additions with and without overlap, of meshes whose own nodes are further apart than the tolerance, any node order",
  "Tests stitch two or three fixed meshes.",
  ["Mesh.h"], [("ManualStitch maps, Stitch::push_back by position", "Mesh.h")],
  [("m_map, m_conn, m_coor, m_nel, m_el_offset", "combined mesh and maps", "Mesh.h")],
  ["Stitch, ManualStitch: coor, conn, nodemap, elemmap, nodeset, elemset, assemble"])

p("C12", "Vertical stacking keeps every layer whole and in order",
  "After any sequence of stacking meshes of one width on top of each other, each layer is the added mesh translated upwards so that it starts where the stack ended, the shared interface nodes are merged, and node and element numbers and sets of every layer translate exactly to the stack, leaving earlier layers unchanged.",
  ["histories", "inputs"], "all sequences of layers of differing height, origin, number of elements in height and node order, with or without the overlap check",
  "Tests stack two or three fixed layers.",
  ["Mesh.h"], [("Vstack::push_back shift + ManualStitch/Stitch", "Mesh.h")],
  [("m_coor top, m_nodes_bot, m_nodes_top", "interface of the stack", "Mesh.h")],
  ["Vstack"])

p("C13", "A failed addition leaves a stitched mesh as it was",
  "When adding a mesh to a stitched or stacked mesh fails (memory exhausted part-way, or argument rejected), the combined mesh, its maps and its sets are exactly what they were before the attempt, and repeating the addition afterwards gives what it would have given without the failure.",
  ["fault_sequences", "histories"], "every allocation of every addition may fail; every rejected argument; any history around it",
  "No test fails an allocation or uses a stitch object after an exception.",
  ["Mesh.h"], [("order of state changes in push_back", "Mesh.h")],
  [("m_map, m_conn, m_coor, m_nel, m_nnd, m_el_offset", "several parallel lists changed one by one", "Mesh.h")],
  ["push_back that throws, then coor/conn/nodemap/elemmap/nmesh"])

p("C14", "Residual stop list remembers exactly the last n residuals",
  "After any sequence of residuals and resets (with or without a change of n, and also when a reset runs out of memory), the stop list holds the last n residuals added since the last reset in order, preceded by infinities while fewer were added; it reports that all are less than a tolerance exactly when every one of them is (an undefined residual is not), and reports descending exactly when none is larger than the one before it.",
  ["histories", "fault_sequences"], "all residual sequences, sizes (zero included), tolerances and resets, including infinities and not-a-number",
  "Tests feed a handful of decreasing sequences.",
  ["Iterate.h"], [("roll_insert ring", "Iterate.h")], [("m_res", "the residual window", "Iterate.h")],
  ["StopList::roll_insert, reset, descending, all_less, data, get"])

p("C15", "Concurrent read-only use of shared objects is safe",
  "Several caller threads that only use read-only operations of shared mesh, stitched-mesh, refinement-map, vector, quadrature, matrix, tying and stop-list objects (copying them included), or change only objects of their own, get the answers a lone caller gets, without data races, under every interleaving and when each call itself uses a team of threads.",
  ["schedules"], "every interleaving of several callers, nested teams included",
  "Tests are single-threaded.",
  ["Vector.h", "VectorPartitioned.h", "VectorPartitionedTyings.h", "Element.h", "Matrix.h", "MatrixPartitioned.h", "MeshQuad4.h", "Mesh.h"],
  [("const members touch no shared mutable state", "Vector.h")],
  observe=["const member functions called from several threads"])

p("C16", "Copies are independent values",
  "A copy, assignment or move of a vector, matrix, quadrature, mesh, mesh-map, tying, stitched-mesh or stop-list object behaves from then on like an object of its own with the same content: any later operation on either, including failed ones and destruction of the original, never shows in the other.",
  ["histories", "fault_sequences"], "all histories after a copy or move, destruction of the original, allocation failures during copying",
  "Tests do not copy objects.",
  ["Vector.h", "Matrix.h", "MatrixDiagonal.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h", "Element.h", "Mesh.h", "Iterate.h"],
  [("value members, no references between objects", "Matrix.h")],
  observe=["copy construction/assignment of stateful objects followed by divergent operation histories"])

p("C17", "Answers do not depend on what memory held before",
  "Every returning form gives the same result as its output-argument form, whatever the output array held before the call and whatever fresh memory contains; no operation writes outside its output or reads outside its arguments.",
  ["configurations", "histories", "schedules"], "all contents of fresh or reused memory (zeros, NaN, huge values, small integers), all team sizes",
  "Memory obtained in a short test process is mostly zero, so a missing initialisation or a read past the end goes unseen.",
  ["Allocate.h", "Element.h", "Vector.h", "Mesh.h", "MeshQuad4.h", "Matrix.h"],
  [("fill(0) or full overwrite before accumulation", "Element.h")],
  observe=["all returning and output-argument pairs; mesh queries"])

p("C18", "A static finite-element computation is right on any team",
  "Displacement-controlled linear elasticity through the whole library (mesh, vectors, quadrature, stiffness, partitioned solve, reactions) ends in equilibrium: internal forces vanish on free DOFs, prescribed displacements are met, reactions balance, a homogeneous deformation is reproduced exactly (patch test), for every mesh, boundary condition, load history, number of threads and interleaving.",
  ["schedules", "inputs", "histories"], "meshes, loads, increments, team sizes, interleavings",
  "Tests check single components; the chain is only in documentation examples.",
  ["Element.h", "ElementQuad4.h", "ElementHex8.h", "MatrixPartitioned.h", "VectorPartitioned.h", "MeshQuad4.h"],
  [("conversion, quadrature and solve chained", "MatrixPartitioned.h")],
  observe=["residual on unknown DOFs, reactions, displacement field"])

p("C19", "A dynamic finite-element computation is right on any team",
  "Explicit time integration through the whole library with a lumped mass matrix follows, step by step, the trajectory of the same scheme computed serially from the definitions; the centre of mass of a free body moves uniformly (momentum conserved) and the energy of an undamped elastic body stays bounded, for every number of threads and interleaving.",
  ["schedules", "inputs", "histories"], "meshes, initial conditions, damping, number of steps, team sizes, interleavings",
  "No dynamic computation is tested.",
  ["MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "ElementQuad4.h", "Vector.h"],
  [("diagonal mass solve, internal force assembly", "MatrixDiagonal.h")],
  observe=["nodal trajectories, momentum, energy per step"])

p("C20", "A periodic computation with tyings is right on any team",
  "A representative cell with periodic tyings and a prescribed mean deformation, solved through tied vectors and matrices, satisfies the tyings exactly, is in equilibrium on the independent DOFs, and for a homogeneous cell reproduces the mean deformation uniformly, for every mesh, loading history, number of threads and interleaving.",
  ["schedules", "inputs", "histories"], "cell sizes, mean deformations, stiffness contrasts, increments, team sizes, interleavings",
  "Tests build the tyings but do not solve with them under load histories or threads.",
  ["TyingsPeriodic.h", "VectorPartitionedTyings.h", "MatrixPartitionedTyings.h"],
  [("Cdu, Cdp condensation", "MatrixPartitionedTyings.h")],
  observe=["Tyings::Periodic/Control, MatrixPartitionedTyingsSolver, displacement field"])

p("C21", "Mesh generation and queries survive memory exhaustion and dirty memory",
  "Building meshes, querying them (sizes, coordinates, connectivity, boundary sets, DOF numberings, tyings, element and node tables, maps), rebuilding them from their arrays and refining them yields the arrays their definitions state, whatever fresh memory contains and in whatever order the calls are made, never accesses memory outside its arrays, and when memory runs out part-way reports it (or ends the process where the underlying containers cannot report it), leaks nothing and leaves existing objects giving the same answers as before.",
  ["fault_sequences", "configurations", "histories"], "all allocation-failure points, memory contents and query orders",
  "Tests never fail an allocation, and out-of-bounds reads of index tables go unnoticed when they hit mapped memory.",
  ["Mesh.h", "MeshQuad4.h", "MeshTri3.h", "MeshHex8.h"],
  [("arrays filled before use; RAII containers", "MeshQuad4.h")],
  observe=["all mesh classes and Mesh:: free functions"])

p("C22", "Mesh generators produce valid conforming meshes",
  "Every regular, graded or refined mesh generator yields elements of positive area or volume that tile the stated domain without gaps, with consistently ordered nodes, and boundary sets that contain exactly the stated nodes.",
  ["inputs"], "all sizes and parameters", "Only a few sizes are tested.",
  ["MeshQuad4.h", "MeshHex8.h", "MeshTri3.h"], [("generators", "MeshQuad4.h")], observe=["coor, conn, nodes*Edge"])
p("C23", "Shape functions and integration rules are exact",
  "Shape functions form a partition of unity and interpolate linear fields, and the stated integration rules integrate the polynomials they are meant to.",
  ["inputs"], "all element types and rules", "Tests check a few values.",
  ["ElementQuad4.h", "ElementHex8.h"], [("Gauss/Nodal tables", "ElementQuad4.h")], observe=["Gauss::xi/w, Nodal::xi/w, MidPoint"])
p("C24", "Renumbering and reordering are bijections that keep equality",
  "Renumbering gives a hole-free numbering with the same equalities between DOFs, and reordering puts the listed sets last (or first) in order.",
  ["inputs"], "all DOF arrays and sets", "Tests use one mesh.",
  ["Mesh.h"], [("Renumber, Reorder", "Mesh.h")], observe=["Mesh::renumber, Mesh::Reorder"])
p("C25", "Refinement maps are consistent",
  "Mapping fields between a coarse mesh and its refinement, or between a graded layer mesh and a regular one, preserves values and averages element by element.",
  ["inputs"], "all sizes and fields", "Tests use a few sizes.",
  ["MeshQuad4.h"], [("RefineRegular, FineLayer2Regular", "MeshQuad4.h")], observe=["Map::*"])
p("C26", "Periodic tyings encode exactly the stated node pairs",
  "For every set of node pairs and control nodes, the tying matrices express each dependent DOF as its independent partner plus the prescribed mean deformation times the distance vector.",
  ["inputs"], "all pair sets, DOF numberings", "One mesh tested.",
  ["TyingsPeriodic.h"], [("Cdi", "TyingsPeriodic.h")], observe=["Periodic::Cdu, Cdp, Control"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
