// P11: createFromSerialMesh against an independent description of what each part must contain
#include "h.hh"
using namespace H;
typedef std::set<uint64_t> Set;

static void check(const SerialMesh &s, const std::vector<uint64_t> &part, int np, const ParallelMesh &p)
{
    if (p.c_numPartitions != (uint64_t)np || p.c_partitionData.size() != (size_t)np) { fail("number of parts"); return; }
    std::vector<std::map<uint64_t,uint64_t>> L(np);      // global -> local cell number
    for (int q = 0; q < np; q++) {
        auto &d = p.c_partitionData[q];
        if (d.cellData.size() != d.numCells || d.faceData.size() != d.numFaces || d.nodeData.size() != d.numNodes) { fail("part %d: counts differ from the tables", q); return; }
        for (uint64_t c = 0; c < d.numCells; c++) {
            uint64_t g = d.cellData[c].globalID;
            if (g >= s.c_numCells || part[g] != (uint64_t)q || !L[q].insert(std::make_pair(g, c)).second) { fail("part %d cell %d has global number %ld", q, (int)c, (long)g); return; }
        }
    }
    uint64_t total = 0;
    for (int q = 0; q < np; q++) total += L[q].size();
    if (total != s.c_numCells) { fail("%d of %d cells are in some part", (int)total, (int)s.c_numCells); return; }
    for (int q = 0; q < np; q++) {
        auto &d = p.c_partitionData[q];
        Set faces, nodes, wf, wn;
        for (uint64_t i = 0; i < d.numFaces; i++) { if (d.faceData[i].globalID >= s.c_numFaces || !faces.insert(d.faceData[i].globalID).second) { fail("part %d: face %d has global number %ld", q, (int)i, (long)d.faceData[i].globalID); return; } }
        for (uint64_t i = 0; i < d.numNodes; i++) {
            auto &n = d.nodeData[i];
            if (n.globalID >= s.c_numNodes || !nodes.insert(n.globalID).second) { fail("part %d: node %d has global number %ld", q, (int)i, (long)n.globalID); return; }
            if (memcmp(n.coords, s.c_nodeData[n.globalID].coords, 24)) fail("part %d: coordinates of node %d", q, (int)i);
        }
        for (uint64_t c = 0; c < d.numCells; c++) {
            cases++;
            auto &C = d.cellData[c];
            auto &G = s.c_cellData[C.globalID];
            if (C.materialIndex != G.materialIndex) fail("part %d cell %d: material", q, (int)c);
            for (int i = 0; i < 4; i++) {
                if (C.boundingFaces[i] >= d.numFaces || d.faceData[C.boundingFaces[i]].globalID != G.boundingFaces[i]) fail("part %d cell %d face %d is not global face %ld", q, (int)c, i, (long)G.boundingFaces[i]);
                if (C.boundingNodes[i] >= d.numNodes || d.nodeData[C.boundingNodes[i]].globalID != G.boundingNodes[i]) fail("part %d cell %d node %d is not global node %ld", q, (int)c, i, (long)G.boundingNodes[i]);
                wf.insert(G.boundingFaces[i]); wn.insert(G.boundingNodes[i]);
            }
        }
        if (faces != wf) fail("part %d has %zu faces, its cells have %zu", q, faces.size(), wf.size());
        if (nodes != wn) fail("part %d has %zu nodes, its cells have %zu", q, nodes.size(), wn.size());
        for (uint64_t i = 0; i < d.numFaces; i++) {
            cases++;
            auto &F = d.faceData[i];
            auto &G = s.c_faceData[F.globalID];
            uint64_t kind = ParallelMesh::NotBoundary;
            for (int k = 0; k < 2; k++) {
                uint64_t g = G.boundingCells[k];
                if (g == SerialMesh::INVALID_INDEX) {
                    kind = ParallelMesh::MeshBoundary;
                    if (F.boundingCells[k] != ParallelMesh::INVALID_INDEX || F.partition[k] != ParallelMesh::INVALID_INDEX) fail("part %d face %d: outer boundary not marked", q, (int)i);
                } else {
                    if (part[g] != (uint64_t)q) kind = ParallelMesh::PartitionBoundary;
                    if (F.partition[k] != part[g]) fail("part %d face %d: bounding part %ld instead of %ld", q, (int)i, (long)F.partition[k], (long)part[g]);
                    if (F.boundingCells[k] != L[part[g]].at(g)) fail("part %d face %d: bounding cell %ld is not the local number %ld of cell %ld", q, (int)i, (long)F.boundingCells[k], (long)L[part[g]].at(g), (long)g);
                }
            }
            if (F.boundaryType != kind) fail("part %d face %d: boundary type %ld instead of %ld", q, (int)i, (long)F.boundaryType, (long)kind);
            for (int k = 0; k < 3; k++) if (F.boundingNodes[k] >= d.numNodes || d.nodeData[F.boundingNodes[k]].globalID != G.boundingNodes[k]) fail("part %d face %d: node %d", q, (int)i, k);
        }
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    for (int it = 0; it < (thorough ? 400 : 60); it++) {
        Tets m = box(1 + rnd(4), 1 + rnd(3), 1 + rnd(3));
        SerialMesh s = serial(m);
        int np = 1 + rnd(it % 5 ? 6 : 40);
        std::vector<uint64_t> part(m.t.size());
        if (it % 3 == 0) part = partition(m, std::min<int>(np, (int)part.size()), Slabs);
        else for (auto &x : part) x = it % 7 ? rnd(np) : rnd(np) / 2;
        SerialMesh keep = s;
        ParallelMesh p;
        if (it % 2) { Tets o = box(2, 1, 1); SerialMesh so = serial(o); p.createFromSerialMesh(so, std::vector<uint64_t>(so.c_numCells, 0), 1); }   // reuse of an object
        p.createFromSerialMesh(s, part, np);
        check(s, part, np, p);
        if (it == 0) sample("%d cells in %d parts", (int)s.c_numCells, np);
    }
    return finish();
}
