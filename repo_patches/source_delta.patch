From 69c1171e03c4f121d600dc4f2979f5e72d94baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 01/15] fix: TychoMesh::getAdjFace returned the adjacent cell
 instead of the adjacent face

---
 src/TychoMesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 5aba20b..980bd85 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -78,7 +78,7 @@ public:
     UINT getAdjCell(UINT cell, UINT face) const
         { return c_adjCell(cell, face); }
     UINT getAdjFace(UINT cell, UINT face) const
-        { return c_adjCell(cell, face); }
+        { return c_adjFace(cell, face); }
     UINT getSideCell(UINT side) const
         { return c_sideCell(side); }
     UINT getSide(UINT cell, UINT face) const
-- 
2.43.0


From 0de98cd4171fe48be55ec74de0d8315687c0e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 02/15] fix: diffBetweenGroups scaled each rank by its own
 largest entry, so the result depended on the partition

---
 src/Util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Util.cc b/src/Util.cc
index 6fe1f20..184006b 100644
--- a/src/Util.cc
+++ b/src/Util.cc
@@ -73,9 +73,9 @@ double diffBetweenGroups(const PsiData &psi)
         }
     }}}
     
-    maxDiff = maxDiff / maxEntry;
     Comm::gmax(maxDiff);
-    return maxDiff;
+    Comm::gmax(maxEntry);
+    return maxDiff / maxEntry;
 }
 
 
-- 
2.43.0


From 982a951b36723b2e604d9e476c624c16b8d0053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 03/15] fix: an unrecognised GaussElim value in the input deck
 was silently accepted

---
 src/Main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index 8e4b39b..ecc167e 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -174,6 +174,8 @@ void readInput(const string &inputFileName,
         g_gaussElim = GaussElim_CramerGlu;
     else if (gaussElimMethod == "CramerIntel")
         g_gaussElim = GaussElim_CramerIntel;
+    else
+        Insist(false, "Gauss elimination method not recognized.");
 
 }
 
-- 
2.43.0


From 5d6906b5c21da890d67f479311d0c9827ec3ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 04/15] fix: face vertices were numbered by their position in
 the file, not by the geometric order meant to match them across partitions

---
 src/TychoMeshIO.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 42b95a2..2812ec2 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -288,8 +288,8 @@ void TychoMesh::readTychoMesh(const std::string &filename)
             if(partData.faceData[face].boundingNodes[order[fvrtx]] == 
                partData.cellData[cell].boundingNodes[cvrtx])
             {
-                c_faceToCellVrtx(cell, lface, order[fvrtx]) = cvrtx;
-                c_cellToFaceVrtx(cell, lface, cvrtx) = order[fvrtx];
+                c_faceToCellVrtx(cell, lface, fvrtx) = cvrtx;
+                c_cellToFaceVrtx(cell, lface, cvrtx) = fvrtx;
             }
         }}
     }}
-- 
2.43.0


From 97c37abbb424cc6a8c5fd9b63809c52f75a3d1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 05/15] fix: neighbour cell/face of partition-boundary sides
 were sent from a reused stack buffer and paired by arrival order

---
 src/TychoMeshIO.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 2812ec2..1fcef89 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -296,7 +296,9 @@ void TychoMesh::readTychoMesh(const std::string &filename)
     
     
     // c_adjCellFromSide, c_adjFaceFromSide
+    // The global side tells the receiver which of its sides the data is for.
     vector<MPI_Request> mpiRequests;
+    Mat2<UINT> sendData(3, c_nSides);
     for(UINT  cell = 0; cell < g_nCells; cell++) {
     for(UINT face = 0; face < g_nFacePerCell; face++) {
         UINT adjProc = c_adjProc(cell, face);
@@ -304,11 +306,12 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
             MPI_Request request;
-            UINT cellFace[2];
-            cellFace[0] = cell;
-            cellFace[1] = face;
-            MPI_Isend(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
-                      MPI_COMM_WORLD, &request);
+            UINT side = c_side(cell, face);
+            sendData(0, side) = c_lGSides(side);
+            sendData(1, side) = cell;
+            sendData(2, side) = face;
+            MPI_Isend(&sendData(0, side), 3 * sizeof(UINT), MPI_CHAR, adjProc, 
+                      0, MPI_COMM_WORLD, &request);
             mpiRequests.push_back(request);
         }
     }}
@@ -321,11 +324,12 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         UINT adjCell = c_adjCell(cell, face);
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
-            UINT cellFace[2];
-            MPI_Recv(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT recvData[3];
+            MPI_Recv(recvData, 3 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
                      MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-            c_adjCellFromSide(c_side(cell, face)) = cellFace[0];
-            c_adjFaceFromSide(c_side(cell, face)) = cellFace[1];
+            UINT side = getGLSide(recvData[0]);
+            c_adjCellFromSide(side) = recvData[1];
+            c_adjFaceFromSide(side) = recvData[2];
         }
     }}
     
-- 
2.43.0


From bf6ac3c2ca4fa49ca25597da7c020ec595032457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 06/15] fix: RefineSerialMesh divided by zero for meshes of
 fewer than 1000 cells

---
 util/RefineSerialMesh.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index 8b93774..59d71f1 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -375,9 +375,10 @@ void refineMesh(const SerialMesh &coarseMesh, SerialMesh &refinedMesh)
         
     
     // Create the refined mesh.
+    const uint64_t printInterval = max<uint64_t>(coarseMesh.c_numCells / 1000, 1);
     for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
         
-        if (coarseCell % (coarseMesh.c_numCells / 1000) == 0)
+        if (coarseCell % printInterval == 0)
             printf("coarseCell: %" PRIu64 "\n", coarseCell);
         
         
-- 
2.43.0


From 875762f589edfba519be4555c4f68c2bbcbab6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 07/15] fix: KeyValueReader error messages printed the line
 number as a character

---
 src/KeyValueReader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index 6be286f..a492f30 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -329,7 +329,7 @@ void KeyValueReader::readFile(const string &filename)
         if (!parseOk) {
             totalParseOk = false;
             string errorString = "Parse error on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
@@ -337,7 +337,7 @@ void KeyValueReader::readFile(const string &filename)
         else if (findKey(c_data->c_keyVector, key) != KEY_NOT_FOUND) {
             totalParseOk = false;
         	string errorString = "Duplicate key on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
-- 
2.43.0


From 040a182fb44d2ca8bac9fb8845013daa8981fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 08/15] fix: the hat source was NaN at a mesh node in the
 center of the cube

---
 src/Problem.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Problem.cc b/src/Problem.cc
index 3e285b6..ff1b5a4 100644
--- a/src/Problem.cc
+++ b/src/Problem.cc
@@ -68,10 +68,14 @@ void hatSource(PsiData &source)
         
         double c = sqrt(x*x + y*y + z*z);
         
+        // The gradient has no direction at the center: use zero there, not 0/0
+        double cDenom = (c > 0.0) ? c : 1.0;
+        
         for(UINT group = 0; group < g_nGroups; group++) {
             if(c <= 30.0) {
                 source(group, vrtx, angle, cell) = 
-                    - x / (30.0*c) * xi - y / (30.0*c) * eta - z / (30.0*c) * mu
+                    - x / (30.0*cDenom) * xi - y / (30.0*cDenom) * eta 
+                    - z / (30.0*cDenom) * mu
                     + (g_sigmaT[cell] - g_sigmaS[cell]) * (1.0 - c / 30.0);
             }
             else {
-- 
2.43.0


From e7e5525fc1ce2af095b4f23e9b9d868a072a8c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 09/15] fix: a face parallel to a direction is neither incoming
 nor outgoing

Both cells of such a face counted it as incoming, so each waited for the
other and the traversal (and the exchange of face data between ranks)
never ended, e.g. on a regular box mesh with S2.
---
 src/CommSides.cc      | 2 +-
 src/GraphTraverser.cc | 5 ++++-
 src/TychoMesh.hh      | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CommSides.cc b/src/CommSides.cc
index 80a1ab7..dc47dba 100644
--- a/src/CommSides.cc
+++ b/src/CommSides.cc
@@ -92,7 +92,7 @@ CommSides::CommSides()
                         
                         c_numSendPackets[rankIndex]++;
                     }
-                    else {
+                    else if (g_tychoMesh->isIncoming(angle, cell, face)) {
                         c_numRecvPackets[rankIndex]++;
                     }
                 }
diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index d5e9881..1475d53 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -597,7 +597,10 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                             isOutgoingWrtDirection[face] = false;
                         }
                         else {
-                            isOutgoingWrtDirection[face] = true;
+                            // A face parallel to the direction is neither
+                            // incoming nor outgoing
+                            isOutgoingWrtDirection[face] = 
+                                g_tychoMesh->isIncoming(angle, cell, face);
                         }
                     }
                 }
diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 980bd85..e1edc30 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -107,7 +107,7 @@ public:
     bool isOutgoing(const UINT angle, const UINT cell, const UINT face) const
         { return getOmegaDotN(angle, cell, face) > 0; }
     bool isIncoming(const UINT angle, const UINT cell, const UINT face) const
-        { return !isOutgoing(angle, cell, face); }
+        { return getOmegaDotN(angle, cell, face) < 0; }
     UINT getAdjCellFromSide(const UINT side) const
         { return c_adjCellFromSide(side); }
     UINT getAdjFaceFromSide(const UINT side) const
-- 
2.43.0


From 4dcfd9a34c11176c215ee34a6c1335586d4d53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 10/15] fix: receive while waiting for sends in the
 CapsaicinTwoSided exchange

Two neighbouring ranks that send to each other in the same step each
waited for their sends to complete before receiving, which deadlocks as
soon as the messages are too large to be buffered.
---
 src/GraphTraverser.cc | 16 +++++++++++-----
 src/GraphTraverser.hh |  3 ++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index 1475d53..76d3e75 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -180,9 +180,13 @@ UINT angleGroupIndex(UINT angle)
     sendData2Sided
 
     Implements two-sided MPI for sending data.
+    
+    Data that arrives in the meantime is appended to dataPackets.
+    Ranks may send to each other at the same time, so waiting for the sends
+    without receiving can deadlock.
 */
 void GraphTraverser::sendData2Sided(
-    const vector<vector<char>> &sendBuffers) const
+    const vector<vector<char>> &sendBuffers, vector<char> &dataPackets) const
 {
     vector<MPI_Request> mpiSendRequests;
     UINT numAdjRanks = c_adjRankIndexToRank.size();
@@ -209,9 +213,11 @@ void GraphTraverser::sendData2Sided(
     
     
     // Make sure all sends are done
-    if (mpiSendRequests.size() > 0) {
-        mpiError = MPI_Waitall(mpiSendRequests.size(), mpiSendRequests.data(), 
-                               MPI_STATUSES_IGNORE);
+    int sendsDone = (mpiSendRequests.size() == 0);
+    while (!sendsDone) {
+        recvData2Sided(dataPackets);
+        mpiError = MPI_Testall(mpiSendRequests.size(), mpiSendRequests.data(), 
+                               &sendsDone, MPI_STATUSES_IGNORE);
         Insist(mpiError == MPI_SUCCESS, "");
     }
 }
@@ -672,7 +678,7 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
             }
             else if (g_mpiType == MPIType_CapsaicinTwoSided) {
                 sendTimer.start();
-                sendData2Sided(sendBuffers1);
+                sendData2Sided(sendBuffers1, dataPackets);
                 sendTimer.stop();
 
                 recvTimer.start();
diff --git a/src/GraphTraverser.hh b/src/GraphTraverser.hh
index 0784ca0..7c42afe 100644
--- a/src/GraphTraverser.hh
+++ b/src/GraphTraverser.hh
@@ -105,7 +105,8 @@ public:
 
 private:
 
-    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers) const;
+    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers,
+                        std::vector<char> &dataPackets) const;
     void recvData2Sided(std::vector<char> &dataPackets) const;
     void sendAndRecvData(const std::vector<std::vector<char>> &sendBuffers,
                          std::vector<char> &dataPackets,
-- 
2.43.0


From ba35690604314219c2618ee0454b7b62a804276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 11/15] fix: keep the message sizes sent by the scheduled sweep
 alive until sent

send() passed a local vector to a non-blocking send and freed it before
the request was waited on.
---
 src/Sweeper.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 00a5921..9379fdf 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -50,6 +50,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <cmath>
 #include <iostream>
 #include <algorithm>
+#include <list>
 #include <omp.h>
 #include <mpi.h>
 
@@ -109,11 +110,13 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
     send
     
     Send side data.
+    The message sizes are put in nSidesData, which must exist until the 
+    requests complete.
 */
 static
 void send(const UINT step, const UINT angleGroup,
           Mat2<vector<UINT>> &commSidesAngles, Mat2<vector<double>> &commPsi,
-          vector<MPI_Request> &mpiRequests)
+          vector<MPI_Request> &mpiRequests, list<vector<UINT>> &nSidesData)
 {
     if (step < g_sweepSchedule[angleGroup]->nSteps()) {
         for (UINT proc : g_sweepSchedule[angleGroup]->getSendProcs(step)) {
@@ -121,12 +124,12 @@ void send(const UINT step, const UINT angleGroup,
             MPI_Request mpiRequest;
             UINT nSides = commSidesAngles(angleGroup, proc).size() / 2;
             UINT nData = commPsi(angleGroup, proc).size();
-            vector<UINT> nSidesData = {nSides, nData};
+            nSidesData.push_back({nSides, nData});
             int tag0 = angleGroup * 3 + 0;
             int tag1 = angleGroup * 3 + 1;
             int tag2 = angleGroup * 3 + 2;
     
-            Comm::iSendUIntVector(nSidesData, proc, tag0, mpiRequest);
+            Comm::iSendUIntVector(nSidesData.back(), proc, tag0, mpiRequest);
             mpiRequests.push_back(mpiRequest);
             if (nSides > 0) {
                 Comm::iSendUIntVector(commSidesAngles(angleGroup, proc), proc, 
@@ -421,9 +424,11 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
             
             // Communication (Non blocking send followed by blocking recv)
             vector<MPI_Request> mpiRequests;
+            list<vector<UINT>> nSidesData;
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {    
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests, 
+                     nSidesData);
             }
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {
@@ -472,7 +477,9 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 
                 // Nonblocking send and blocking recv
                 vector<MPI_Request> mpiRequests;
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                list<vector<UINT>> nSidesData;
+                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests, 
+                     nSidesData);
                 recv(step, angleGroup, psiBound);
                 MPI_Waitall(mpiRequests.size(), &mpiRequests[0], 
                             MPI_STATUSES_IGNORE);
-- 
2.43.0


From 473c1209b1528fa9663a0f1651042112fe1405f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 12/15] fix: sweep schedule of a group without directions

With more threads than directions calcLevels read the first element of an
empty matrix.
---
 src/SweepSchedule.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 864c789..cc70367 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -498,8 +498,8 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
                    nChildrenNeeded, neighborProcs);
     }
     
-    UINT nlevels = cellLevels[0];
-    for(unsigned i = 1; i < cellLevels.size(); i++) {
+    UINT nlevels = 0;
+    for(unsigned i = 0; i < cellLevels.size(); i++) {
         nlevels = std::max(nlevels, cellLevels[i]);
     }
     Comm::gmax(nlevels);
-- 
2.43.0


From b50d2c34d252090f2cdba69a5e175f942d648332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 13/15] fix: ranks blocked sending schedule data to each other

---
 src/SweepSchedule.cc | 83 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 21 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index cc70367..2b0cede 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -55,6 +55,8 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 
 using namespace std;
 const static double TOL = 1.e-10;
+const static int NUM_TAG = 1;   // number of entries sent to a neighbor
+const static int DATA_TAG = 2;  // the entries
 
 
 /*
@@ -260,6 +262,35 @@ void updateLevels(const vector<SweepSchedule::Work> &workDone,
 }
 
 
+/*
+    iSendToNeighbors
+    
+    Sends the number of entries and the entries for each neighbor.
+    Neighbors send to each other at the same time, so the sends must not
+    block before the receives.  numEntries and commData must exist until the 
+    requests complete.
+*/
+static
+void iSendToNeighbors(const vector<vector<UINT> > &commData,
+                      const UINT entrySize,
+                      const set<UINT> &neighborProcs,
+                      vector<vector<UINT> > &numEntries,
+                      vector<MPI_Request> &mpiRequests)
+{
+    numEntries.resize(commData.size());
+    for (UINT proc : neighborProcs) {
+        MPI_Request mpiRequest;
+        numEntries[proc].assign(1, commData[proc].size() / entrySize);
+        Comm::iSendUIntVector(numEntries[proc], proc, NUM_TAG, mpiRequest);
+        mpiRequests.push_back(mpiRequest);
+        if (numEntries[proc][0] > 0) {
+            Comm::iSendUIntVector(commData[proc], proc, DATA_TAG, mpiRequest);
+            mpiRequests.push_back(mpiRequest);
+        }
+    }
+}
+
+
 /*
     sendLevels
 */
@@ -268,9 +299,12 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat2<UINT> &cellLevels,
                 const Mat3<bool> &hasParent,
-                const set<UINT> &neighborProcs)
+                const set<UINT> &neighborProcs,
+                vector<vector<UINT> > &commSidesAnglesLevels,
+                vector<vector<UINT> > &numEntries,
+                vector<MPI_Request> &mpiRequests)
 {
-    vector<vector<UINT> > commSidesAnglesLevels(Comm::numRanks());
+    commSidesAnglesLevels.resize(Comm::numRanks());
     
     for (const SweepSchedule::Work &work : workDone) {
         UINT cell = work.getCell();
@@ -291,13 +325,8 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
         }
     }
     
-    for(UINT proc : neighborProcs) {
-        UINT nSides = commSidesAnglesLevels[proc].size()/3;
-        Comm::sendUInt(nSides, proc);
-        if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAnglesLevels[proc], proc);
-        }
-    }
+    iSendToNeighbors(commSidesAnglesLevels, 3, neighborProcs, numEntries, 
+                     mpiRequests);
 }
 
 
@@ -312,11 +341,12 @@ void recvLevels(Mat2<UINT> &cellLevels, Mat2<UINT> &sideLevels,
                    const set<UINT> &neighborProcs)
 {
     for (UINT proc : neighborProcs) {
-        UINT nSides;
-        Comm::recvUInt(nSides, proc);
+        vector<UINT> numEntries(1);
+        Comm::recvUIntVector(numEntries, proc, NUM_TAG);
+        UINT nSides = numEntries[0];
         if (nSides > 0) {
             vector<UINT> commSidesAnglesLevels(3*nSides);
-            Comm::recvUIntVector(commSidesAnglesLevels, proc);
+            Comm::recvUIntVector(commSidesAnglesLevels, proc, DATA_TAG);
 
             for (UINT child = 0; child < nSides; ++child) {
                 const UINT globalSide = commSidesAnglesLevels[child * 3];
@@ -346,9 +376,12 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat3<bool> &hasChild,
                 const set<UINT> &neighborProcs,
-                vector<vector<UINT> > &sendProcs)
+                vector<vector<UINT> > &sendProcs,
+                vector<vector<UINT> > &commSidesAngles,
+                vector<vector<UINT> > &numEntries,
+                vector<MPI_Request> &mpiRequests)
 {
-    vector<vector<UINT> > commSidesAngles(Comm::numRanks());
+    commSidesAngles.resize(Comm::numRanks());
     
     for (const SweepSchedule::Work &work : workDone) {
         UINT cell = work.getCell();
@@ -370,12 +403,11 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
     vector<UINT> stepSendProcs;
     for (UINT proc : neighborProcs) {
         UINT nSides = commSidesAngles[proc].size()/2;
-        Comm::sendUInt(nSides, proc);
         if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAngles[proc], proc);
             stepSendProcs.push_back(proc);
         }
     }
+    iSendToNeighbors(commSidesAngles, 2, neighborProcs, numEntries, mpiRequests);
     sendProcs.push_back(stepSendProcs);
 }
 
@@ -393,11 +425,12 @@ void recvOrders(priority_queue<PriorityWork> &availableWork,
     vector<UINT> stepRecvProcs;
     
     for (UINT proc : neighborProcs) {
-        UINT nSides;
-        Comm::recvUInt(nSides, proc);
+        vector<UINT> numEntries(1);
+        Comm::recvUIntVector(numEntries, proc, NUM_TAG);
+        UINT nSides = numEntries[0];
         if (nSides > 0) {
             vector<UINT> commSidesAngles(2*nSides);
-            Comm::recvUIntVector(commSidesAngles, proc);
+            Comm::recvUIntVector(commSidesAngles, proc, DATA_TAG);
             stepRecvProcs.push_back(proc);
             
             for (UINT parent = 0; parent < nSides; ++parent) {
@@ -446,9 +479,13 @@ void calcOrdering(const Mat3<bool> &hasChild,
         partialTopoSort(availableWork, nParentsNeeded, hasChild, priorities, 
                         maxCellsPerStep, angles, workDone);
         workOrders.push_back(workDone);
-        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs);
+        vector<vector<UINT> > sendData, numEntries;
+        vector<MPI_Request> mpiRequests;
+        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs, 
+                   sendData, numEntries, mpiRequests);
         recvOrders(availableWork, priorities, nParentsNeeded, neighborProcs, 
                    recvProcs);
+        MPI_Waitall(mpiRequests.size(), mpiRequests.data(), MPI_STATUSES_IGNORE);
 
         UINT stepSize = workDone.size();
         Comm::gmax(stepSize);
@@ -493,9 +530,13 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         partialTopoSort(availableWork, nChildrenNeeded, hasParent, priorities, 
                         maxCellsPerStep, angles, workDone);
         updateLevels(workDone, angles, cellLevels, hasParent);
-        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs);
+        vector<vector<UINT> > sendData, numEntries;
+        vector<MPI_Request> mpiRequests;
+        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs,
+                   sendData, numEntries, mpiRequests);
         recvLevels(cellLevels, sideLevels, availableWork, priorities,
                    nChildrenNeeded, neighborProcs);
+        MPI_Waitall(mpiRequests.size(), mpiRequests.data(), MPI_STATUSES_IGNORE);
     }
     
     UINT nlevels = 0;
-- 
2.43.0


From 1c19ed8d695a611d2b293869f7a0e956471d97dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 14/15] fix: KeyValueReader accepted values of which only the
 beginning is a number

---
 src/KeyValueReader.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index a492f30..d9a0dd3 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -410,7 +410,11 @@ void KeyValueReader::getInt(const std::string &key, int &value) const
     
     // Convert to int
     try {
-        value = stoi(valueString);
+        size_t numUsed = 0;
+        int converted = stoi(valueString, &numUsed);
+        if (numUsed != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to int");
@@ -438,7 +442,11 @@ void KeyValueReader::getDouble(const std::string &key, double &value) const
     
     // Convert to double
     try {
-        value = stod(valueString);
+        size_t numUsed = 0;
+        double converted = stod(valueString, &numUsed);
+        if (numUsed != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to double");
@@ -466,7 +474,11 @@ void KeyValueReader::getFloat(const std::string &key, float &value) const
     
     // Convert value to float
     try {
-        value = stof(valueString);
+        size_t numUsed = 0;
+        float converted = stof(valueString, &numUsed);
+        if (numUsed != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to float");
-- 
2.43.0


From 75b0366c3321a82e00ed3577f8f8068d0146a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:40 +0000
Subject: [PATCH 15/15] fix: keep integer priorities in SweepSchedule's
 PriorityWork

The priority was passed through double: UINT(-1), which a priority of 0 - 1
gives, becomes 2^64, whose conversion back to UINT is undefined, and large
priorities lose their low bits.
---
 src/SweepSchedule.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 2b0cede..95b14f7 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -73,7 +73,7 @@ private:
     UINT c_angle;
     
 public:
-    PriorityWork(UINT cell, UINT angle, double priority)
+    PriorityWork(UINT cell, UINT angle, UINT priority)
         : c_priority(priority), c_cell(cell), c_angle(angle) {}
     
     UINT getCell() const { return c_cell; }
-- 
2.43.0

