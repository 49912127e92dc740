SEEDS = [
 dict(id='P01-source-group', property='P01', harness='p01.cc', np=[1],
      edits=[('src/Transport.cc', '    double q3 = localSource(3, group);', '    double q3 = localSource(3, 0);')],
      needs='at least two energy groups whose sources differ (the shipped problem gives all groups the same source)',
      breaks='the fourth vertex source of every group is taken from group 0, so the local balance of the other groups is wrong'),
 dict(id='P02-partial-row-swap', property='P02', harness='p02.cc', skip=['Transport', 'GraphTraverser', 'CommSides', 'KrylovSolver', 'Priorities', 'SourceIteration', 'Sweeper', 'SweeperPBJ', 'SweeperSchur', 'SweeperTraverse', 'SweepSchedule', 'Util', 'KeyValueReader'],
      edits=[('src/Transport.cc', '                    for (int column2 = 0; column2 < n; ++column2) {', '                    for (int column2 = column; column2 < n; ++column2) {')],
      needs='a local matrix that needs a row exchange in its second or third column',
      breaks='the stored multipliers are not exchanged with their rows, so the solution is wrong whenever a late pivot swap happens'),
 dict(id='P05-sigma-cell', property='P05', harness='p05.cc',
      edits=[('src/Util.cc', '            g_sigmaS[cell] / (4.0 * M_PI) *  phi(group, vertex, cell);', '            g_sigmaS[0] / (4.0 * M_PI) *  phi(group, vertex, cell);')],
      needs='a mesh with two materials of different scattering cross section',
      breaks='scattering source uses the cross section of the first cell everywhere'),
 dict(id='P03-boundary-group', property='P03', harness='p03.cc', np=[3],
      edits=[('src/Transport.cc', 'psiBound(group, fvrtx, angle, side)', 'psiBound(0, fvrtx, angle, side)')],
      needs='several ranks and groups whose boundary values differ',
      breaks='received boundary data of group 0 is used for every group'),
 dict(id='P04-fill-short',
      property='P04',
      harness='p04.cc',
      flags='',
      libs='',
      edits=[('src/Mat.hh', '    // Set all values to a constant\n    void setAll(const T &t)\n    {\n        for (size_t i = 0; i < size(); i++) {', '    // Set all values to a constant\n    void setAll(const T &t)\n    {\n        for (size_t i = 0; i + 1 < size(); i++) {')],
      needs='a two-index array that is filled again after it held other values (the shipped runs only fill freshly zeroed arrays)',
      breaks='the last element keeps its old value when the array is filled'),
 dict(id='P06-weights-swapped',
      property='P06',
      harness='p06.cc',
      edits=[('src/Quadrature.cc', 'static const double s_w16[] = { 0.0271524594117528, 0.0622535239386485, 0.0951585116824923, 0.1246289712555341,', 'static const double s_w16[] = { 0.0271524594117528, 0.0622535239386485, 0.1246289712555341, 0.0951585116824923,'), ('src/Quadrature.cc', '0.1495959888165768, 0.1246289712555341, 0.0951585116824923, 0.0622535239386485, 0.0271524594117528 };', '0.1495959888165768, 0.0951585116824923, 0.1246289712555341, 0.0622535239386485, 0.0271524594117528 };')],
      needs='the order-16 quadrature (the runs use other orders)',
      breaks='two weights of the order-16 rule are exchanged: they still sum to one and stay symmetric, but the second moments are wrong'),
 dict(id='P07-group-size',
      property='P07',
      harness='p07.cc',
      edits=[('src/GraphTraverser.cc', '        if (angleGroup < numChunksBigger)', '        if (angleGroup <= numChunksBigger)')],
      needs='direction and thread counts for which the bigger first chunks matter',
      breaks='one group too many gets an extra direction, so the groups are uneven'),
 dict(id='P08-two-messages',
      property='P08',
      harness='p08.cc',
      np=[1, 2, 4],
      timeout=90,
      edits=[('src/GraphTraverser.cc', '            mpiError = MPI_Recv(&dataPackets[originalSize], recvCount, \n                                MPI_BYTE, adjRank, tag, MPI_COMM_WORLD,', '            mpiError = MPI_Recv(&dataPackets[0], recvCount, \n                                MPI_BYTE, adjRank, tag, MPI_COMM_WORLD,')],
      needs='the Capsaicin two-sided mode and messages of two neighbours picked up in one pass',
      breaks='the second message overwrites the first, whose faces are then never (or wrongly) released'),
 dict(id='P09-face-group',
      property='P09',
      harness='p09.cc',
      np=[1, 2, 4],
      timeout=90,
      edits=[('src/SweepData.hh', '            c_psiBound(group, fvrtx, angle, side) = localFaceData(fvrtx, group);', '            c_psiBound(group, fvrtx, angle, side) = localFaceData(fvrtx, 0);')],
      needs='several ranks and energy groups whose fluxes differ',
      breaks='face data received in a traversal sweep takes every group from group 0'),
 dict(id='P10-node-id',
      property='P10',
      harness='p10.cc',
      np=[1, 2, 3],
      edits=[('src/ParallelMesh.cc', '        partData.nodeData[node].globalID  = bufferUint[node * 4 + 3];', '        partData.nodeData[node].globalID  = node;')],
      needs='a mesh file with several partitions, read in parallel',
      breaks='global node numbers of a parallel-read partition are the local ones'),
 dict(id='P11-node-id',
      property='P11',
      harness='p11.cc',
      edits=[('src/ParallelMesh.cc', '            nodeData.globalID = gnode;', '            nodeData.globalID = pnode;')],
      needs='more than one partition',
      breaks='a node loses its global number when the serial mesh is partitioned'),
 dict(id='P12-sort-short',
      property='P12',
      harness='p12.cc',
      edits=[('util/PartitionColumns.cc', '        sort(indexBegin, indexEnd, compareY);', '        sort(indexBegin, indexEnd - 1, compareY);')],
      needs='a mesh whose last cell of a column in x is not the last in y',
      breaks='one cell per x-slab stays unsorted in y and lands in the wrong column'),
 dict(id='P13-vertex-order',
      property='P13',
      harness='p13.cc',
      np=[1, 2, 3],
      edits=[('src/TychoMeshIO.cc', '        order[0] = 2;\n        if (isV1LessThanV2(coords0, coords1)) {', '        order[0] = 2;\n        if (!isV1LessThanV2(coords1, coords2)) {')],
      needs='a face whose third node is the smallest and whose other two are in descending order',
      breaks='the vertex order of a face depends on how it is listed, so the two cells of a face pair different vertices'),
 dict(id='P14-normal-threshold',
      property='P14',
      harness='p14.cc',
      edits=[('src/TychoMesh.cc', '    if(dotProduct > 0) {', '    if(dotProduct > 1e-6) {')],
      needs='a mesh with small cells (edges below about 1e-3)',
      breaks='normals of small cells may point inwards'),
 dict(id='P15-refine-case',
      property='P15',
      harness='p15.cc',
      edits=[('util/RefineSerialMesh.cc', '        outTets[4].nodes[0] = midNodes[index2To1(1,3)];', '        outTets[4].nodes[0] = midNodes[index2To1(0,2)];')],
      needs='a cell whose shortest inner diagonal is the second one',
      breaks='one child is flat and part of the parent is not covered'),
 dict(id='P16-comment-end', property='P16', harness='p16.cc',
      edits=[('src/KeyValueReader.cc', "size_t commentStart = line.find('#');", "size_t commentStart = line.rfind('#');")],
      needs='a comment that itself contains another #',
      breaks='only the last # starts a comment, so such a line is read wrongly'),
 dict(id='P18-vector-group',
      property='P18',
      harness='p18.cc',
      np=[1, 2, 3],
      edits=[('src/SweeperSchur.cc', '                    x[xArrayIndex] = psiBound(group, fvrtx, angle, side);', '                    x[xArrayIndex] = psiBound(0, fvrtx, angle, side);')],
      needs='several ranks and groups whose boundary values differ',
      breaks='the boundary vector holds group 0 in the place of every group'),
 dict(id='P19-local-count',
      property='P19',
      harness='p19.cc',
      np=[1, 2, 3],
      edits=[('src/PsiData.cc', '    Comm::gsum(restOfHeader[1]);\n', '')],
      needs='several ranks',
      breaks='the header holds the number of cells of one rank'),
 dict(id='P20-step-limit',
      property='P20',
      harness='p20.cc',
      np=[1, 2, 4],
      edits=[('src/SweepSchedule.cc', 'workDone.size() < maxCellsPerStep)', 'workDone.size() <= maxCellsPerStep)')],
      needs='a step with more ready tasks than the limit',
      breaks='a step may hold one task more than allowed'),
 dict(id='P21-second-material',
      property='P21',
      harness='p21.cc',
      np=[1, 2, 3],
      edits=[('src/Problem.cc', '            sigmaS[cell] = sigmaS2;', '            sigmaS[cell] = sigmaS1;')],
      needs='a mesh with two materials whose scattering cross sections differ',
      breaks='the second material scatters like the first'),
 dict(id='P22-comm-world',
      property='P22',
      harness='p22.cc',
      np=[1, 2, 3],
      edits=[('src/Comm.cc', '1, MPI_DOUBLE, MPI_MAX, comm);', '1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);')],
      needs='a reduction over a communicator smaller than the world',
      breaks='the maximum over a sub-communicator takes in ranks outside it'),
 dict(id='P23-level-race',
      property='P23',
      harness='p23.cc',
      extra=['omp_shim.cc', 'tsan.supp'],
      np=[1],
      timeout=200,
      # the detector also reports MPI's own threads: a race counts when this code makes the access
      pre='''sh -c 'PMIX_MCA_gds=hash TSAN_OPTIONS="exitcode=0:halt_on_error=0:report_mutex_bugs=0:suppressions='$D'/tsan.supp" "$0" > race.log 2>&1; cat race.log | cut -c1-200 | head -60; grep -q "^CASES" race.log && ! grep -qE "^ +#[01] .* src/[A-Za-z0-9]+[.](cc|hh):" race.log' ''',
      edits=[('src/Priorities.cc', '        #pragma omp critical\n', '')],
      needs='two threads that update the maximum b-level at the same time',
      breaks='the maximum b-level is updated without a lock'),
 dict(id='P24-original-group',
      property='P24',
      harness='p24.cc',
      np=[1, 2, 3],
      edits=[('src/Sweeper.cc', '        psiSide[VG(vertex, group)] = psiBound(group, vertex, angle, side);', '        psiSide[VG(vertex, group)] = psiBound(0, vertex, angle, side);')],
      needs='several ranks and groups whose fluxes differ',
      breaks='the original sweep sends group 0 for every group, the traversal sweep does not'),
 dict(id='P17-tolerance-met', property='P17', harness='p17.cc', np=[1],
      edits=[('src/SourceIteration.cc', 'while (iter < g_iterMax && error > g_errMax)', 'while (iter < g_iterMax && error >= g_errMax)')],
      needs='a relative change that equals the tolerance (a tolerance of 0 and a flux that has stopped changing, or a first change of 1 and a tolerance of 1)',
      breaks='the iteration goes on after its relative change has fallen to the tolerance, up to the limit of steps'),
]
