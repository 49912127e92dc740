#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and props/specs.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T1 = "The 38 regression runs compare one output vector on one 208-cell mesh, one material, S8, 2 groups; "

def P(id, title, statement, over, text, why, files, mech, observe=None):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                               'observe_at': observe or [], 'hook_needed': None}}

PROPS = [
P('P01', 'The local cell solve satisfies the linear-DG transport balance',
  "For every cell, direction, energy group, total cross section, source and incoming face data, the vertex values produced by the local transport solve satisfy the cell's linear discontinuous-Galerkin equations: streaming built from the face areas and direction-normal products, removal and source through the tetrahedral mass matrix, outgoing faces using the cell's own values and incoming faces using the supplied upwind values. Nothing outside the cell's own output is changed.",
  ['inputs'], 'all cells, directions, groups, cross sections, sources, incoming values, every inflow/outflow sign pattern',
  T1 + 'a wrong coefficient on a sign pattern, material or group that mesh never exercises passes.',
  ['src/Transport.cc', 'src/Transport.hh'],
  [('local system assembly and solve', 'src/Transport.cc:solve, calcSource, calcVolumeIntegrals, calcOutgoingFlux, calcIncomingFlux')], ['Transport::solve output']),
P('P02', 'Every local elimination method solves the 4x4 system',
  "Each selectable elimination method returns the solution of the 4x4 system it is given, for every matrix on which the method is defined: any non-singular matrix for the pivoting and the two Cramer methods, non-zero pivots for the method without pivoting. In exact arithmetic all methods therefore return the same answer.",
  ['inputs', 'configurations'], 'all non-singular 4x4 real matrices and right-hand sides, all four methods, every pivoting path',
  T1 + 'transport matrices are diagonally heavy, so pivot swaps, zero pivots and several cofactors are hardly exercised.',
  ['src/Transport.cc'], [('elimination methods', 'src/Transport.cc:gaussElim4')]),
P('P03', 'Each incoming face of a cell is given exactly its upwind data',
  "For every cell and direction, the data handed to the local solve for an incoming face is the neighbour cell's value at the same physical vertex when the neighbour is on this rank, the received boundary value of that face when the neighbour is on another rank, and zero on the outer mesh boundary; for outgoing faces it is zero. This holds vertex by vertex and group by group.",
  ['inputs', 'configurations'], 'all meshes, partitions, cells, faces, face vertices, directions and groups',
  T1 + 'two swapped vertices or a boundary rule for one partition layout can stay inside its tolerance or never occur.',
  ['src/Transport.cc'], [('upwind gather', 'src/Transport.cc:populateLocalPsiBound')]),
P('P04', 'Multi-index storage never aliases and never leaves its allocation',
  "Every multi-dimensional array (dense 1-3 dimensional arrays, angular flux, boundary flux, scalar flux) maps each valid index tuple to its own distinct element inside its allocated storage, for all sizes, and the whole allocation is covered. A write through one tuple is read back through that tuple and changes no other; filling sets every element, and copying or resizing keeps sizes and ownership consistent.",
  ['inputs'], 'all dimension sizes and index tuples',
  'The tests fix one set of sizes; aliasing that needs particular (e.g. unequal) sizes is invisible.',
  ['src/Mat.hh', 'src/PsiData.hh'], [('index functions', 'src/Mat.hh:Mat1,Mat2,Mat3::index; src/PsiData.hh:PsiData,PsiBoundData,PhiData::index')]),
P('P05', 'Angular moments and scattering source are computed exactly',
  "For every cell, vertex and group, the scalar flux is the quadrature-weighted sum of the angular flux over all directions; the total source is the external source plus the cell's scattering cross section over 4 pi times the scalar flux; the scattering operator is that same multiplication; expanding a scalar flux copies it to every direction. Inputs are left unchanged.",
  ['inputs', 'configurations'], 'all flux values, cross sections per cell, group, direction and cell counts',
  T1 + 'both materials are equal there, so per-cell cross sections and isotropic terms are not distinguished.',
  ['src/Util.cc'], [('moment and source operators', 'src/Util.cc:psiToPhi, phiToPsi, calcTotalSource, operatorS')]),
P('P06', 'The angular quadrature integrates the sphere consistently',
  "For every supported order n (even, 2 to 30) the quadrature has 2 n^2 directions, each a unit vector, with positive weights summing to 4 pi, symmetric under reflection in every octant, with zero first moments and second moments 4 pi/3 on each axis. No direction is repeated.",
  ['configurations'], 'every supported quadrature order and every direction of it',
  'Every regression run uses order 8; the other 14 tables of constants and the expansion into octants are never executed.',
  ['src/Quadrature.cc', 'src/Quadrature.hh'], [('tables and octant expansion', 'src/Quadrature.cc:Quadrature')]),
P('P07', 'Directions are split over angle groups completely and evenly',
  "For every number of directions and every number of angle groups (threads), each direction belongs to exactly one group, groups are contiguous and in order, and group sizes differ by at most one; the direction-to-group map used in graph traversal and the group ranges used by the scheduled sweep agree with such a split.",
  ['configurations'], 'all direction counts and thread counts, including more threads than divide evenly and groups of unequal size',
  'Runs use 1 or 3 threads with 128 directions only.',
  ['src/GraphTraverser.cc', 'src/Sweeper.cc', 'src/Sweeper.hh'], [('group of a direction', 'src/GraphTraverser.cc:angleGroupIndex; src/Sweeper.cc:Sweeper ctor')]),
P('P08', 'A sweep computes each cell and direction once, after all its upwind',
  "A graph-traversal sweep on any mesh, partition, thread count, priorities and step limit processes every (cell, direction) pair exactly once, only after every upwind neighbour in that direction has been processed (on this rank) or its face data received (from another rank), and then terminates. Each pair is reported with the correct neighbour cell or side and face classification.",
  ['schedules', 'configurations'], 'all meshes, partitions, rank and thread counts, priority tables, step limits and message arrival orders',
  'The final flux cannot reveal a premature update in converged iterations, and only one mesh and a few layouts are run.',
  ['src/GraphTraverser.cc', 'src/GraphTraverser.hh', 'src/SweepData.hh'], [('dependency counting and traversal', 'src/GraphTraverser.cc:GraphTraverser ctor, traverse')]),
P('P09', 'Face data sent between ranks arrives unchanged at the matching side',
  "Whatever values a rank packs for an outgoing partition-boundary face and direction are unpacked on the neighbouring rank under exactly that face and direction, for each of its three vertices and every group, in every communication scheme; nothing else in the receiver's boundary data changes. The numbers of packets sent and expected between two ranks agree.",
  ['inputs', 'configurations', 'schedules'], 'all meshes, partitions, values, group counts, packet batches and arrival orders',
  T1 + 'a mix-up between sides or groups with equal values, or between batches, is invisible.',
  ['src/GraphTraverser.cc', 'src/SweepData.hh', 'src/CommSides.cc', 'src/Sweeper.cc'],
  [('packet layout', 'src/GraphTraverser.cc:createPacket,splitPacket; src/SweepData.hh:getData,setSideData; src/CommSides.cc:commSides; src/Sweeper.cc')]),
P('P10', 'Mesh files round-trip exactly',
  "Writing a serial or parallel mesh and reading it back yields the same counts, cells, faces, nodes, global ids, partition tables, boundary types, materials and bit-identical coordinates; reading one partition directly from a parallel mesh file gives exactly that partition. The partition offsets stored in the file are the byte positions of the partitions, and the files have the documented layout.",
  ['inputs'], 'all meshes, partition counts and field values',
  'The tests only read meshes whose errors would have to be detected through the flux; ids, offsets of several partitions and materials are not compared.',
  ['src/SerialMesh.cc', 'src/ParallelMesh.cc', 'src/Comm.cc'], [('file formats', 'src/SerialMesh.cc:read,write; src/ParallelMesh.cc:read,write,readInParallel')]),
P('P11', 'Partitioning a serial mesh loses nothing and is mutually consistent',
  "Splitting a serial mesh by any partition vector puts every cell in exactly its part, with its own material, nodes, coordinates and faces under the part's local numbering; every face appears in exactly the parts of its bounding cells with the global face id, both part numbers, and the right kind (mesh boundary, partition boundary, interior). Across a partition boundary the two parts agree on the global face, and each names the other's local cell.",
  ['inputs', 'configurations'], 'all serial meshes and partition vectors',
  T1 + 'partition-boundary bookkeeping beyond what that mesh needs is never compared.',
  ['src/ParallelMesh.cc'], [('partitioning', 'src/ParallelMesh.cc:createFromSerialMesh')]),
P('P12', 'Partitioning tools assign every cell once, in balanced columns',
  "The column partitioner assigns every cell to exactly one part within range, parts differ in size only by rounding (columns in x differ by at most one cell, and parts within a column by at most one), and cells of a lower x-column never have a larger centroid x than those of a higher one (likewise in y inside a column). The graph partitioner passes exactly the cell adjacency of the mesh and returns one part in range per cell.",
  ['inputs', 'configurations'], 'all meshes and part counts, including counts that do not divide the cell count',
  'Only a few fixed part counts on one mesh are used, and no test looks at the assignment.',
  ['util/PartitionColumns.cc', 'util/PartitionMetis.cc'], [('column split', 'util/PartitionColumns.cc:splitIntoChunks, partitionMesh'), ('adjacency', 'util/PartitionMetis.cc')]),
P('P13', 'Mesh connectivity on each rank is mutual and geometrically right',
  "For every loaded mesh: face i of a cell is the face opposite its vertex i; if cell A lists B across a face then B lists A across the reported adjacent face; the three face-vertex indices map to the cell vertices of that face and back; a face vertex and its neighbour vertex are the same mesh node; and the face-vertex order depends only on the vertices' coordinates, so both sides of a face (also across ranks) number it alike. Boundary faces have consecutive side numbers with their own cell, global id, adjacent rank, and - across ranks - the neighbour's cell and face.",
  ['inputs', 'configurations'], 'all parallel meshes (any ordering of cells, faces, nodes inside the file) and partitions',
  T1 + 'the accessors for adjacent faces and neighbours across ranks are not used by any run.',
  ['src/TychoMesh.cc', 'src/TychoMesh.hh', 'src/TychoMeshIO.cc'], [('connectivity tables', 'src/TychoMeshIO.cc:readTychoMesh; src/TychoMesh.cc ctor')]),
P('P14', 'Cell volumes, face areas and direction-normal products are the true geometry',
  "For every non-degenerate tetrahedron, whatever the vertex order or orientation, the stored volume is the tetrahedron's volume, each face area is the triangle's area, and each direction-normal product is the direction dotted with the unit normal pointing out of the cell. A face is outgoing exactly when that product is positive and incoming exactly when it is negative; a face parallel to the direction is neither (products within rounding of zero count as zero).",
  ['inputs', 'configurations'], 'all non-degenerate tetrahedra, vertex orders, faces and directions',
  'One mesh; an orientation rule that fails for some vertex orders or an area error compensated elsewhere is not seen.',
  ['src/TychoMesh.cc', 'src/TychoMesh.hh'], [('geometry', 'src/TychoMesh.cc:getTetVolume, getTriangleArea, getNormal, TychoMesh ctor')]),
P('P15', 'Mesh refinement subdivides without gaps or overlaps',
  "Refining a serial mesh replaces every tetrahedron by smaller ones that exactly fill it: the total volume of the pieces equals the original, pieces keep the parent's material, every refined interior face is shared by exactly two cells, boundary faces cover exactly the original boundary, and all indices are in range and mutually consistent.",
  ['inputs'], 'all serial meshes, of any size including very small ones',
  'No test runs the refinement tool.',
  ['util/RefineSerialMesh.cc'], [('refinement', 'util/RefineSerialMesh.cc:refineMesh')]),
P('P16', 'Input decks are read exactly as written, and bad decks are rejected',
  "For every input deck, each key (matched without regard to case) yields the value written for it, comments and blank space are ignored, and missing keys, duplicate keys, malformed lines, unconvertible values and reading twice are reported as errors rather than silently defaulted. Every run parameter is set from its own key, and unknown names for the sweep, communication or elimination methods are refused.",
  ['inputs'], 'all input files',
  'All regression decks are well formed and use one layout; no malformed deck is ever read.',
  ['src/KeyValueReader.cc', 'src/Main.cc'], [('parser', 'src/KeyValueReader.cc'), ('parameter assignment', 'src/Main.cc:readInput')]),
P('P17', 'Source iteration and the Krylov driver solve the stated equations',
  "Each fixed-point step sweeps with the external source plus scattering of the latest scalar flux, stops exactly when the global relative change falls to the tolerance or the iteration limit is reached, and returns the number of steps; the Krylov operator returns its argument minus the scalar flux of a sweep driven by the scattering of that argument with zero incoming data. The right-hand side uses the external source, and the final angular flux is a sweep with the external source plus scattering of the solution.",
  ['inputs', 'histories'], 'all sources, sweeps, tolerances and iteration limits',
  T1 + 'converged answers hide a stale iterate, a wrong stop test or an operator error that only changes the convergence rate.',
  ['src/SourceIteration.cc', 'src/KrylovSolver.cc'], [('iteration drivers', 'src/SourceIteration.cc:fixedPoint, krylov, lhsOperator; src/KrylovSolver.cc')]),
P('P18', 'Domain-decomposition sweeps apply the stated boundary operators',
  "Packing incoming partition-boundary data into a solver vector and unpacking it again is the identity on exactly the incoming boundary values, uses exactly the advertised number of entries, and touches nothing else; the boundary operator of the Schur methods returns its argument minus the boundary data produced by a local solve driven only by that argument. Each block-Jacobi step uses the previous exchange's boundary data and stops exactly when the global relative change meets the tolerance or the limit is reached.",
  ['inputs', 'configurations'], 'all meshes, partitions, boundary values, groups and directions',
  T1 + 'only the converged answer of each method is compared.',
  ['src/SweeperSchur.cc', 'src/SweeperPBJ.cc'], [('boundary packing and operators', 'src/SweeperSchur.cc:psiBoundToVec, vecToPsiBound, getPsiBoundSize, Schur, SchurOuter; src/SweeperPBJ.cc')]),
P('P19', 'The output file holds the flux at its documented place',
  "The written angular-flux file starts with the documented header (name, version, global cell, direction and group counts), and the values of every cell, in global cell numbering, follow at the position determined only by the global cell id, direction, vertex and group; every position is written once, by the rank that owns the cell. The file is therefore independent of the partition.",
  ['configurations', 'inputs'], 'all partitions, cell numberings and sizes',
  'The comparison tool reads files of one mesh; group and direction order errors shared by the reference would pass, and other sizes are not run.',
  ['src/PsiData.cc', 'src/SweeperAbstract.hh'], [('file offsets', 'src/PsiData.cc:writeToFile')]),
P('P20', 'The scheduled sweep covers each task once in dependency order',
  "For every mesh, direction set and priority option, the precomputed schedule places each (cell, direction) task of a rank in exactly one step, never before a step holding any of its upwind neighbours on any rank, and at most the allowed number of cells per step; priorities are defined for every task. Planned sends and receives of each step match between the two ranks. (Neighbours across a face whose direction-normal product is zero up to rounding are not upwind.)",
  ['configurations', 'schedules'], 'all meshes, partitions, priority options and cells-per-step limits',
  'The runs cover one mesh with a few option values and only compare the flux.',
  ['src/SweepSchedule.cc', 'src/Priorities.cc', 'src/Sweeper.cc'], [('schedule', 'src/SweepSchedule.cc'), ('priorities', 'src/Priorities.cc')]),
P('P21', 'Problem data and reported errors are what they claim to be',
  "Every cell gets the cross sections of its own material and any other material is refused; the manufactured source is finite everywhere, equals the streaming plus removal of the hat function inside radius 30 and zero outside; the reported relative error is the global root of summed squared differences over summed squares of cell-average values, and the reported group difference is the largest difference from the first group over the largest first-group value. Reported numbers do not depend on the partition.",
  ['inputs', 'configurations'], 'all meshes, materials, flux values, group counts and partitions',
  'Printed diagnostics are not compared by any test, both materials are equal, and the mesh has no node at the centre.',
  ['src/Problem.cc', 'src/Util.cc'], [('problem definition and norms', 'src/Problem.cc; src/Util.cc:diffBetweenGroups')]),
P('P22', 'Global reductions combine every rank',
  "The global sum and maximum helpers return on every rank the sum or maximum of the values contributed by all ranks, for each supported type; point-to-point helpers deliver what was sent, and file helpers read and write exactly the requested elements and advance the position accordingly.",
  ['inputs', 'schedules'], 'all values, rank counts and sizes',
  'A reduction used only for printing or for a stop test that is met anyway is not observed.',
  ['src/Comm.cc', 'src/Comm.hh'], [('wrappers', 'src/Comm.cc')]),
P('P23', 'Thread-parallel loops do not race',
  "In every loop run by several threads, two different iterations never write the same memory element, and no iteration reads an element another iteration writes, except where a declared reduction or a per-thread buffer makes it safe. Results are therefore independent of the number of threads and their scheduling.",
  ['schedules', 'configurations'], 'all iterations of all parallel loops, all thread counts',
  'Races need an unlucky interleaving; runs with 3 threads sample a handful of schedules.',
  ['src/Util.cc', 'src/Sweeper.cc', 'src/SweepSchedule.cc', 'src/Priorities.cc', 'src/GraphTraverser.cc'], [('parallel regions', 'every omp pragma under src')]),
P('P24', 'All sweep algorithms and layouts produce the same solution',
  "For a given mesh and problem, every sweep algorithm, iteration driver, rank count, thread count and tuning option produces the same angular flux up to the solver tolerance, and that flux satisfies the transport equation cell by cell. Runs end without deadlock.",
  ['configurations', 'schedules'], 'all algorithm choices, partitions, thread counts and tuning options',
  'One mesh, one material and 38 combinations are compared with one stored vector.',
  ['src/Sweeper.cc', 'src/SweeperTraverse.cc', 'src/SweeperPBJ.cc', 'src/SweeperSchur.cc', 'src/SourceIteration.cc'], [('solve drivers', 'src/Sweeper*.cc:solve, sweep')]),
]

NOTES = json.load(open(os.path.join(HERE, 'props', 'notes.json')))


def main():
    specs = json.load(open(os.path.join(HERE, 'props', 'specs.json')))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in specs and not specs[i].get('skip'):
            checks.append({
                'property': i,
                'quick_cmd': 'python3 check.py %s --tier quick' % i,
                'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': specs[i].get('technique', 'contract-based deductive verification: own VC generator over the clang AST of the real code, z3/cvc5; counterexample replay on the compiled code'),
                'level': specs[i].get('level', 'proof'),
                'level_note': NOTES['checks'].get(i, NOTES['default'])})
        else:
            na.append({'property': i, 'reason': NOTES['na'].get(i, 'not built yet')})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na, 'notes': NOTES['notes']}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
