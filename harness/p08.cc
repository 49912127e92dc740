// GraphTraverser: every (cell, direction) exactly once, after all upwind neighbours / arrived face data, then terminates
#include "h.hh"
#include "GraphTraverser.hh"
#include <atomic>
using namespace H;

// buffered sends are an MPI implementation's privilege: half of the runs use synchronous sends
static bool sync_ = false;
static long sends_ = 0;
extern "C" int (MPI_Isend)(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r)
{ sends_++; return sync_ ? PMPI_Issend(b, n, t, d, g, c, r) : PMPI_Isend(b, n, t, d, g, c, r); }

struct Rec : public TraverseData
{
    Direction dir; bool comm; size_t nbytes; int prioKind;
    std::vector<char> done, side;                 // (cell,angle), (side,angle)
    std::vector<UINT> prio;
    std::vector<std::vector<char>> buf;
    std::atomic<long> updates, msgs;
    Rec(Direction d, bool c, size_t n, int pk) : dir(d), comm(c), nbytes(n), prioKind(pk), done(g_nCells * g_nAngles, 0), side(g_tychoMesh->getNSides() * g_nAngles + 1, 0),
        prio(g_nCells * g_nAngles), buf(g_nThreads, std::vector<char>(n)), updates(0), msgs(0)
    { local([&]() { for (auto &p : prio) p = pk == 0 ? 7 : pk == 1 ? (UINT)uni(0, 1000) : (UINT)uni(0, 2) * UINT64_MAX; }); }
    bool in(UINT a, UINT c, UINT f) { double o = g_tychoMesh->getOmegaDotN(a, c, f); return dir == Direction_Forward ? o < 0 : o > 0; }
    bool out(UINT a, UINT c, UINT f) { double o = g_tychoMesh->getOmegaDotN(a, c, f); return dir == Direction_Forward ? o > 0 : o < 0; }
    static void stamp(char *b, size_t n, UINT gcell, UINT face, UINT angle)
    { uint64_t h = gcell * 1000003 + face * 7919 + angle * 104729 + 12345; for (size_t i = 0; i < n; i++) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = (char)(h >> 56); } }
    virtual const char *getData(UINT cell, UINT face, UINT angle)
    {
        int th = omp_get_thread_num();
        #pragma omp critical(rec)
        {
            if (cell >= g_nCells || face > 3 || angle >= g_nAngles) fail("getData(%d,%d,%d) out of range", (int)cell, (int)face, (int)angle);
            else if (!done[cell * g_nAngles + angle]) fail("face data of cell %d direction %d taken before the cell was computed", (int)cell, (int)angle);
        }
        stamp(buf[th].data(), nbytes, g_tychoMesh->getLGCell(cell), face, angle);
        return buf[th].data();
    }
    virtual void setSideData(UINT s, UINT angle, const char *data)
    {
        msgs++;
        if (s >= g_tychoMesh->getNSides() || angle >= g_nAngles) { fail("setSideData(%d,%d) out of range", (int)s, (int)angle); return; }
        UINT cell = g_tychoMesh->getSideCell(s), face = 0;
        while (face < 4 && !(g_tychoMesh->getAdjCell(cell, face) == TychoMesh::BOUNDARY_FACE && g_tychoMesh->getSide(cell, face) == s)) face++;
        if (face == 4) { fail("side %d is not a face of its cell", (int)s); return; }
        if (!in(angle, cell, face)) fail("data arrived at side %d direction %d, which is not incoming", (int)s, (int)angle);
        if (side[s * g_nAngles + angle]++) fail("data of side %d direction %d arrived twice", (int)s, (int)angle);
        if (done[cell * g_nAngles + angle]) fail("data of side %d direction %d arrived after its cell was computed", (int)s, (int)angle);
        std::vector<char> want(nbytes);
        stamp(want.data(), nbytes, nbr[s].first, nbr[s].second, angle);
        if (memcmp(want.data(), data, nbytes)) fail("side %d direction %d got the data of another face or direction (rank %d of %d)", (int)s, (int)angle, rank_, size_);
    }
    virtual UINT getPriority(UINT cell, UINT angle)
    {
        if (cell >= g_nCells || angle >= g_nAngles) { fail("getPriority(%d,%d) out of range", (int)cell, (int)angle); return 0; }
        return prio[cell * g_nAngles + angle];
    }
    virtual void update(UINT cell, UINT angle, UINT adj[g_nFacePerCell], BoundaryType t[g_nFacePerCell])
    {
        #pragma omp critical(rec)
        {
        updates++;
        if (cell >= g_nCells || angle >= g_nAngles) fail("update(%d,%d) out of range", (int)cell, (int)angle);
        else {
            if (done[cell * g_nAngles + angle]++) fail("cell %d direction %d computed twice", (int)cell, (int)angle);
            for (UINT f = 0; f < 4; f++) {
                UINT ac = g_tychoMesh->getAdjCell(cell, f), ar = g_tychoMesh->getAdjRank(cell, f);
                bool inner = ac != TychoMesh::BOUNDARY_FACE, part = !inner && ar != TychoMesh::BAD_RANK;
                double o = g_tychoMesh->getOmegaDotN(angle, cell, f);
                if (o != 0) {
                    BoundaryType want = o > 0 ? (inner ? BoundaryType_OutInt : part ? BoundaryType_OutIntBdry : BoundaryType_OutExtBdry)
                                              : (inner ? BoundaryType_InInt : part ? BoundaryType_InIntBdry : BoundaryType_InExtBdry);
                    if (t[f] != want) fail("cell %d face %d direction %d classified %d, should be %d", (int)cell, (int)f, (int)angle, (int)t[f], (int)want);
                }
                if (inner && adj[f] != ac) fail("cell %d face %d: neighbour cell %d reported, should be %d", (int)cell, (int)f, (int)adj[f], (int)ac);
                if (part && adj[f] != g_tychoMesh->getSide(cell, f)) fail("cell %d face %d: side %d reported, should be %d", (int)cell, (int)f, (int)adj[f], (int)g_tychoMesh->getSide(cell, f));
                if (in(angle, cell, f)) {
                    if (inner && !done[ac * g_nAngles + angle]) fail("cell %d direction %d computed before its upwind neighbour %d", (int)cell, (int)angle, (int)ac);
                    if (part && comm && !side[g_tychoMesh->getSide(cell, f) * g_nAngles + angle]) fail("cell %d direction %d computed before the data of side %d arrived", (int)cell, (int)angle, (int)g_tychoMesh->getSide(cell, f));
                }
            }
        }
        }
    }
    std::vector<std::pair<UINT,UINT>> nbr;        // side -> (global cell, face) on the other rank, established by the harness
};

static void run(const char *what)
{
    Sides sides;
    if (!sides.acyclic()) return;
    std::vector<std::pair<UINT,UINT>> nb = sides.nbr;
    for (int d = 0; d < 2; d++) for (int comm = 0; comm < 2; comm++) for (int mt = 0; mt < 2; mt++) for (int st = 0; st < 3; st++) {
        if (!comm && mt) continue;
        UINT step = st == 0 ? 1 : st == 1 ? 2 + rnd(4) : 1000000;
        size_t nbytes = 1 + rnd(40);
        int pk = rnd(3);
        g_mpiType = mt ? MPIType_CapsaicinTwoSided : MPIType_TychoTwoSided;
        sync_ = rnd(2);
        Rec r(d ? Direction_Backward : Direction_Forward, comm, nbytes, pk);
        r.nbr = nb;
        GraphTraverser t(r.dir, comm, nbytes);
        for (int again = 0; again < 2; again++) {
            std::fill(r.done.begin(), r.done.end(), 0); std::fill(r.side.begin(), r.side.end(), 0);
            r.updates = 0; r.msgs = 0; sends_ = 0;
            MPI_Barrier(MPI_COMM_WORLD);
            t.traverse(step, r);
            MPI_Barrier(MPI_COMM_WORLD);
            cases += g_nCells * g_nAngles;
            if (r.updates != (long)(g_nCells * g_nAngles)) fail("%s: %ld updates for %ld (cell, direction) pairs", what, (long)r.updates, (long)(g_nCells * g_nAngles));
            for (size_t i = 0; i < g_nCells * g_nAngles; i++) if (r.done[i] != 1) { fail("%s: cell %d direction %d computed %d times", what, (int)(i / g_nAngles), (int)(i % g_nAngles), (int)r.done[i]); break; }
            long want = 0;
            for (UINT c = 0; c < g_nCells; c++) for (UINT f = 0; f < 4; f++) if (g_tychoMesh->getAdjCell(c, f) == TychoMesh::BOUNDARY_FACE && g_tychoMesh->getAdjRank(c, f) != TychoMesh::BAD_RANK)
                for (UINT a = 0; a < g_nAngles; a++) want += r.in(a, c, f);
            if (!comm) want = 0;
            if (!comm && sends_) fail("%s: messages sent by a traversal without communication", what);
            if (r.msgs != want) fail("%s: %ld face data arrived, %ld incoming partition-boundary faces", what, (long)r.msgs, want);
            int flag = 0;
            MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &flag, MPI_STATUS_IGNORE);
            if (flag) fail("%s: a message is left over after the traversal", what);
        }
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    int rep = thorough ? 12 : 2;
    for (int i = 0; i < rep; i++) for (int k = 0; k < 3; k++) {
        Tets m = k == 0 ? box(2, 2, 1 + rnd(2), 100, 0.0, true) : box(1 + rnd(3), 2, 1 + rnd(3), 100, 0.1);
        UINT th = 1 + rnd(3), order = k == 0 ? 2 : 2 + 2 * rnd(2);
        setup(m, partition(m, size_, rnd(2) ? Random : Slabs), size_, order, 1, th);
        run(k == 0 ? "regular mesh" : "random mesh");
    }
    sample("ranks %d, boxes of up to 3x2x3 cubes, S2/S4, forward/backward, with and without communication, both message schemes, 1-3 threads", size_);
    return finish();
}
