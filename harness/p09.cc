// values packed for a partition-boundary face and direction arrive under exactly that face, direction, vertex and group
#include "h.hh"
#include "GraphTraverser.hh"
#include "SweepData.hh"
#include "CommSides.hh"
#include "Sweeper.hh"
#include "SweepSchedule.hh"
#include "Transport.hh"
#include <list>
using namespace H;

// every send is made synchronous on request; the bytes of every send must stay unchanged until the wait that completes it
static bool sync_ = false;
struct SentBuf { const void *b; std::vector<char> copy; };
static std::vector<SentBuf> live;
extern "C" int (MPI_Isend)(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r)
{
    int sz; MPI_Type_size(t, &sz);
    SentBuf q; q.b = b; q.copy.assign((const char *)b, (const char *)b + (size_t)n * sz);
    #pragma omp critical(live)
    live.push_back(q);
    return sync_ ? PMPI_Issend(b, n, t, d, g, c, r) : PMPI_Isend(b, n, t, d, g, c, r);
}
static void allSent()
{
    #pragma omp critical(live)
    {
        for (auto &q : live) if (memcmp(q.b, q.copy.data(), q.copy.size())) { fail("a message was overwritten before it was sent"); break; }
        live.clear();
    }
}
extern "C" int (MPI_Waitall)(int n, MPI_Request *r, MPI_Status *s) { allSent(); return PMPI_Waitall(n, r, s); }
extern "C" int (MPI_Testall)(int n, MPI_Request *r, int *f, MPI_Status *s) { int e = PMPI_Testall(n, r, f, s); if (*f) allSent(); return e; }

struct Fixed : public SweepData        // the production packing, no transport
{
    Fixed(PsiData &psi, const PsiData &q, PsiBoundData &b, const Mat2<UINT> &p) : SweepData(psi, q, b, p) {}
    virtual void update(UINT, UINT, UINT *, BoundaryType *) {}
};

static void compare(const char *what, const Sides &sd, const PsiBoundData &got, const PsiBoundData &want)
{
    for (UINT s = 0; s < sd.face.size(); s++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < 3; v++) for (UINT g = 0; g < g_nGroups; g++) {
        cases++;
        if (got(g, v, a, s) != want(g, v, a, s)) {
            bool in = g_tychoMesh->getOmegaDotN(a, g_tychoMesh->getSideCell(s), sd.face[s]) < 0 && sd.nbrRank[s] >= 0;
            fail("%s: rank %d of %d side %d (face %d of cell %d, neighbour rank %d) direction %d vertex %d group %d of %d: %s %.17g, should be %.17g", what, rank_, size_, (int)s,
                 (int)sd.face[s], (int)g_tychoMesh->getSideCell(s), sd.nbrRank[s], (int)a, (int)v, (int)g, (int)g_nGroups, in ? "received" : "not a receiving entry, but changed to", got(g, v, a, s), want(g, v, a, s));
            return;
        }
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    int rep = thorough ? 14 : 3;
    for (int i = 0; i < rep; i++) for (int k = 0; k < 2; k++) {
        Tets m = k == 0 ? box(2, 2, 1 + rnd(2), 100, 0.0, true) : box(1 + rnd(3), 2, 1 + rnd(3), 100, 0.1);
        UINT th = 1 + rnd(3), nG = 1 + rnd(4);
        setup(m, partition(m, size_, rnd(2) ? Random : Slabs), size_, k == 0 ? 2 : 2 + 2 * rnd(2), nG, th);
        Sides sd;
        PsiData psi, q;
        PsiBoundData before, want, got;
        local([&]() { fill(psi); fill(q, 0, 1); fill(before); });
        auto reset = [&]() { for (size_t j = 0; j < before.size(); j++) want[j] = got[j] = before[j]; };

        // all partition-boundary faces at once
        for (int s = 0; s < 2; s++) {
            sync_ = s; reset(); sd.truth(psi, want);
            CommSides cs;
            cs.commSides(psi, got);
            compare("CommSides", sd, got, want);
            PsiData psi2; for (size_t j = 0; j < psi.size(); j++) psi2[j] = psi[j];
            local([&]() { fill(psi2); });
            sd.truth(psi2, want);
            cs.commSides(psi2, got);            // the object is reused for every iteration
            compare("CommSides, second exchange", sd, got, want);
        }
        if (!sd.acyclic()) continue;

        // packets of the graph traversal
        Mat2<UINT> prio(g_nCells, g_nAngles);
        local([&]() { for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) prio(c, a) = rnd(5); });
        for (int mt = 0; mt < 2; mt++) for (int s = 0; s < 2; s++) {
            sync_ = s; reset(); sd.truth(psi, want);
            g_mpiType = mt ? MPIType_CapsaicinTwoSided : MPIType_TychoTwoSided;
            Fixed d(psi, q, got, prio);
            GraphTraverser t(Direction_Forward, true, SweepData::getDataSizeInBytes());
            UINT step = s ? 1000 : 1 + rnd(3);
            t.traverse(step, d);
            compare(mt ? "traversal, CapsaicinTwoSided" : "traversal, TychoTwoSided", sd, got, want);
        }

        // scheduled sweep: its boundary data is internal, so every cell is solved again from the neighbours' actual values
        for (int ty = 0; ty < 2; ty++) {
            g_sweepType = ty ? SweepType_OriginalTycho2 : SweepType_OriginalTycho1;
            g_maxCellsPerStep = 1 + rnd(6); g_intraAngleP = rnd(4); g_interAngleP = rnd(3);
            sync_ = rnd(2);
            Sweeper sw;
            PsiData p;
            local([&]() { fill(p, -50, 50); });    // stale values must not survive
            sw.sweep(p, q, false);
            PsiBoundData b;
            sd.truth(p, b);
            Mat2<double> ls(4, nG), lp(4, nG); Mat3<double> lb(3, 4, nG);
            bool bad = false;
            for (UINT c = 0; c < g_nCells && !bad; c++) for (UINT a = 0; a < g_nAngles && !bad; a++) {
                for (UINT g = 0; g < nG; g++) for (UINT v = 0; v < 4; v++) ls(v, g) = q(g, v, a, c);
                Transport::populateLocalPsiBound(a, c, p, b, lb);
                Transport::solve(c, a, g_sigmaT[c], lb, ls, lp);
                cases++;
                for (UINT g = 0; g < nG && !bad; g++) for (UINT v = 0; v < 4; v++) if (!close(lp(v, g), p(g, v, a, c), 1e-9)) {
                    fail("scheduled sweep %d: rank %d of %d cell %d direction %d vertex %d group %d of %d: %.15g, with its neighbours' values %.15g", ty + 1, rank_, size_, (int)c, (int)a, (int)v, (int)g, (int)nG, p(g, v, a, c), lp(v, g));
                    bad = true; break;
                }
            }
        }
        int flag = 0;
        MPI_Barrier(MPI_COMM_WORLD);
        MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &flag, MPI_STATUS_IGNORE);
        if (flag) fail("a message is left over");
        live.clear();
    }
    sample("ranks %d, random and slab partitions, 1-4 groups, S2/S4, all exchange schemes, buffered and synchronous sends", size_);
    return finish();
}
