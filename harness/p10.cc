// P10: serial and parallel mesh files: round trip, documented layout, offsets, one partition read in parallel
#include "h.hh"
#include <fstream>
#include <iterator>
using namespace H;

static uint64_t anyId() { switch (rnd(4)) { case 0: return rnd(10); case 1: return UINT64_MAX; case 2: return rng(); default: return rnd(1000000); } }
static double anyCoord()
{
    switch (rnd(5)) {
        case 0: return uni(-100, 100);
        case 1: { uint64_t b = rng(); double d; memcpy(&d, &b, 8); return d; }      // any bit pattern
        case 2: return rnd(2) ? 0.0 : -0.0;
        case 3: return 1e-310;
        default: return 1.0 / 3.0 * (double)rnd(1000);
    }
}
static uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

static std::string slurp(const std::string &f) { std::ifstream s(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>()); }
struct In { std::string s; size_t o; uint64_t u() { uint64_t v = 0xdeadbeef; if (o + 8 <= s.size()) memcpy(&v, &s[o], 8); else fail("file too short at byte %zu", o); o += 8; return v; } };

static void words(const char *what, In &in, const uint64_t *v, int n)
{
    for (int i = 0; i < n; i++) { uint64_t w = in.u(); if (w != v[i]) fail("%s: word %d in the file is %llx instead of %llx", what, i, (unsigned long long)w, (unsigned long long)v[i]); }
}

static SerialMesh randomSerial()
{
    SerialMesh s;
    memset(s.c_meshFormatName, 'x', sizeof s.c_meshFormatName);
    s.c_version = 77;
    s.c_numCells = rnd(6); s.c_numFaces = rnd(9); s.c_numNodes = rnd(7);
    for (uint64_t i = 0; i < s.c_numCells; i++) { SerialMesh::CellData d; for (auto &x : d.boundingFaces) x = anyId(); for (auto &x : d.boundingNodes) x = anyId(); d.materialIndex = anyId(); s.c_cellData.push_back(d); }
    for (uint64_t i = 0; i < s.c_numFaces; i++) { SerialMesh::FaceData d; for (auto &x : d.boundingCells) x = anyId(); for (auto &x : d.boundingNodes) x = anyId(); s.c_faceData.push_back(d); }
    for (uint64_t i = 0; i < s.c_numNodes; i++) { SerialMesh::NodeData d; for (auto &x : d.coords) x = anyCoord(); s.c_nodeData.push_back(d); }
    return s;
}
static void serialLayout(const std::string &f, const SerialMesh &s)
{
    In in{slurp(f), 32};
    char name[32] = "Tycho 2 Serial Mesh";
    if (in.s.size() < 32 || memcmp(in.s.data(), name, 32)) fail("serial mesh: format name");
    uint64_t h[4] = {2, s.c_numCells, s.c_numFaces, s.c_numNodes};
    words("serial header", in, h, 4);
    for (auto &c : s.c_cellData) { words("cell faces", in, c.boundingFaces, 4); words("cell nodes", in, c.boundingNodes, 4); words("material", in, &c.materialIndex, 1); }
    for (auto &c : s.c_faceData) { words("face cells", in, c.boundingCells, 2); words("face nodes", in, c.boundingNodes, 3); }
    for (auto &c : s.c_nodeData) for (double x : c.coords) { uint64_t b = bits(x); words("coordinate", in, &b, 1); }
    if (in.o != in.s.size()) fail("serial mesh: %zu bytes in the file, %zu expected", in.s.size(), in.o);
}
static bool same(const SerialMesh &a, const SerialMesh &b)
{
    if (a.c_numCells != b.c_numCells || a.c_numFaces != b.c_numFaces || a.c_numNodes != b.c_numNodes) return false;
    if (b.c_cellData.size() != a.c_numCells || b.c_faceData.size() != a.c_numFaces || b.c_nodeData.size() != a.c_numNodes) return false;
    return !memcmp(a.c_cellData.data(), b.c_cellData.data(), a.c_numCells * sizeof(SerialMesh::CellData)) && !memcmp(a.c_faceData.data(), b.c_faceData.data(), a.c_numFaces * sizeof(SerialMesh::FaceData)) && !memcmp(a.c_nodeData.data(), b.c_nodeData.data(), a.c_numNodes * sizeof(SerialMesh::NodeData));
}

static ParallelMesh::PartitionData randomPart()
{
    ParallelMesh::PartitionData p;
    p.numCells = rnd(6); p.numFaces = rnd(9); p.numNodes = rnd(7);
    for (uint64_t i = 0; i < p.numCells; i++) { ParallelMesh::CellData d; for (auto &x : d.boundingFaces) x = anyId(); for (auto &x : d.boundingNodes) x = anyId(); d.globalID = anyId(); d.materialIndex = anyId(); p.cellData.push_back(d); }
    for (uint64_t i = 0; i < p.numFaces; i++) { ParallelMesh::FaceData d; for (auto &x : d.boundingCells) x = anyId(); for (auto &x : d.boundingNodes) x = anyId(); d.globalID = anyId(); for (auto &x : d.partition) x = anyId(); d.boundaryType = rnd(3); p.faceData.push_back(d); }
    for (uint64_t i = 0; i < p.numNodes; i++) { ParallelMesh::NodeData d; for (auto &x : d.coords) x = anyCoord(); d.globalID = anyId(); p.nodeData.push_back(d); }
    return p;
}
static bool same(const ParallelMesh::PartitionData &a, const ParallelMesh::PartitionData &b)
{
    if (a.numCells != b.numCells || a.numFaces != b.numFaces || a.numNodes != b.numNodes) return false;
    if (b.cellData.size() != a.numCells || b.faceData.size() != a.numFaces || b.nodeData.size() != a.numNodes) return false;
    return !memcmp(a.cellData.data(), b.cellData.data(), a.numCells * sizeof(ParallelMesh::CellData)) && !memcmp(a.faceData.data(), b.faceData.data(), a.numFaces * sizeof(ParallelMesh::FaceData)) && !memcmp(a.nodeData.data(), b.nodeData.data(), a.numNodes * sizeof(ParallelMesh::NodeData));
}
static void parallelLayout(const std::string &f, const ParallelMesh &m, bool offsets)
{
    In in{slurp(f), 32};
    char name[32] = "Tycho 2 Parallel Mesh";
    if (in.s.size() < 32 || memcmp(in.s.data(), name, 32)) fail("parallel mesh: format name");
    uint64_t h[2] = {2, m.c_numPartitions};
    words("parallel header", in, h, 2);
    In off = in;
    words("offsets", in, m.c_bytesOffset.data(), (int)m.c_numPartitions + 1);
    for (uint64_t p = 0; p < m.c_numPartitions; p++) {
        auto &d = m.c_partitionData[p];
        uint64_t o = off.u();
        if (offsets && o != in.o) fail("offset of partition %d is %ld, its data starts at byte %zu", (int)p, (long)o, in.o);
        uint64_t n[3] = {d.numCells, d.numFaces, d.numNodes};
        words("partition counts", in, n, 3);
        for (auto &c : d.cellData) { words("cell faces", in, c.boundingFaces, 4); words("cell nodes", in, c.boundingNodes, 4); words("cell id", in, &c.globalID, 1); words("material", in, &c.materialIndex, 1); }
        for (auto &c : d.faceData) { words("face cells", in, c.boundingCells, 2); words("face nodes", in, c.boundingNodes, 3); words("face id", in, &c.globalID, 1); words("face partitions", in, c.partition, 2); words("boundary type", in, &c.boundaryType, 1); }
        for (auto &c : d.nodeData) { for (double x : c.coords) { uint64_t b = bits(x); words("coordinate", in, &b, 1); } words("node id", in, &c.globalID, 1); }
    }
    uint64_t o = off.u();
    if (offsets && o != in.o) fail("last offset is %ld, the file ends at byte %zu", (long)o, in.o);
    if (in.o != in.s.size()) fail("parallel mesh: %zu bytes in the file, %zu expected", in.s.size(), in.o);
}

int main(int argc, char **argv)
{
    init(argc, argv);
    int n = thorough ? 300 : 40;
    std::string fn = tmpfile("rt.mesh");
    for (int it = 0; it < n; it++) {
        cases++;
        SerialMesh s = randomSerial();
        ParallelMesh p;
        p.c_numPartitions = it % 2 ? size_ : 1 + rnd(4);
        bool real = it % 3 == 0;
        if (real) {
            Tets m = box(1 + rnd(2), 1 + rnd(2), 1);
            s = serial(m);
            std::vector<uint64_t> part(m.t.size());
            for (auto &x : part) x = rnd(p.c_numPartitions);       // parts may be empty
            p.createFromSerialMesh(s, part, (int)p.c_numPartitions);
        } else {
            uint64_t o = 32 + 8 * (3 + p.c_numPartitions);
            for (uint64_t i = 0; i < p.c_numPartitions; i++) {
                p.c_partitionData.push_back(randomPart());
                auto &d = p.c_partitionData.back();
                p.c_bytesOffset.push_back(o);
                o += 24 + 80 * d.numCells + 72 * d.numFaces + 32 * d.numNodes;
            }
            p.c_bytesOffset.push_back(o);
        }
        if (rank_ == 0) {
            SerialMesh s1 = s;
            s1.write(fn);
            if (!same(s, s1)) fail("writing changed the serial mesh");
            serialLayout(fn, s);
            SerialMesh r = randomSerial();      // stale contents must not survive
            std::mt19937_64 keep = rng;
            r.read(fn);
            rng = keep;
            if (!same(s, r)) fail("serial mesh with %d cells %d faces %d nodes does not come back", (int)s.c_numCells, (int)s.c_numFaces, (int)s.c_numNodes);
            if (r.c_version != 2) fail("version read back as %d", (int)r.c_version);
            ParallelMesh p1 = p;
            p1.write(fn);
            parallelLayout(fn, p, true);
            ParallelMesh q;
            q.c_partitionData.push_back(randomPart());
            q.c_bytesOffset.push_back(1);
            q.read(fn);
            if (q.c_numPartitions != p.c_numPartitions || q.c_version != 2 || q.c_bytesOffset != p.c_bytesOffset || q.c_partitionData.size() != p.c_numPartitions) fail("parallel mesh header does not come back");
            else for (uint64_t i = 0; i < p.c_numPartitions; i++) if (!same(p.c_partitionData[i], q.c_partitionData[i])) fail("partition %d of %d does not come back", (int)i, (int)p.c_numPartitions);
        }
        rng.seed(rng() * 0 + 1000 * it + 7);        // rank 0 drew extra numbers
        MPI_Barrier(MPI_COMM_WORLD);
        if (p.c_numPartitions == (uint64_t)size_) {
            ParallelMesh::PartitionData d = randomPart();
            ParallelMesh::readInParallel(fn, d);
            if (!same(p.c_partitionData[rank_], d)) fail("reading partition %d of %d in parallel gives something else", rank_, size_);
        }
        MPI_Barrier(MPI_COMM_WORLD);
    }
    sample("%d random meshes", n);
    return finish();
}
