// the precomputed schedule: every task once, at most the allowed cells per step, dependency order, matching sends/receives;
// priorities are defined for every task whatever was in memory
#include "h.hh"
#include "SweepSchedule.hh"
#include "Sweeper.hh"
#include "Priorities.hh"
using namespace H;
static bool sync_ = false;
extern "C" int (MPI_Isend)(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r)
{ return sync_ ? PMPI_Issend(b, n, t, d, g, c, r) : PMPI_Isend(b, n, t, d, g, c, r); }
extern "C" int (MPI_Send)(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c)
{ return sync_ ? PMPI_Ssend(b, n, t, d, g, c) : PMPI_Send(b, n, t, d, g, c); }

struct At { UINT gcell, angle, step, pos; };
struct Edge { UINT rank, step, other, kind; };      // kind 0: sends to other, 1: receives from other

static void check(const SweepSchedule &s, const std::vector<UINT> &angles, UINT maxCells, const Sides &sd, const char *what)
{
    std::vector<At> mine; std::vector<Edge> edges;
    std::vector<char> seen(g_nCells * g_nAngles, 0);
    UINT n = s.nSteps();
    std::vector<UINT> all = gatherAll(std::vector<UINT>(1, n));
    for (UINT x : all) if (x != n) fail("%s: ranks have %d and %d steps", what, (int)n, (int)x);
    for (UINT st = 0; st < n; st++) {
        const std::vector<SweepSchedule::Work> &w = s.getWork(st);
        if (w.size() > maxCells) fail("%s: step %d has %d tasks, at most %d allowed", what, (int)st, (int)w.size(), (int)maxCells);
        std::set<UINT> need;
        for (size_t i = 0; i < w.size(); i++) {
            UINT c = w[i].getCell(), a = w[i].getAngle();
            cases++;
            if (c >= g_nCells || a >= g_nAngles || !std::count(angles.begin(), angles.end(), a)) { fail("%s: task (%d,%d) does not belong to this schedule", what, (int)c, (int)a); continue; }
            if (seen[c * g_nAngles + a]++) fail("%s: task (cell %d, direction %d) is scheduled twice", what, (int)c, (int)a);
            At t = {g_tychoMesh->getLGCell(c), a, st, i};
            mine.push_back(t);
            for (UINT f = 0; f < 4; f++) if (onPartBdry(c, f) && g_tychoMesh->getOmegaDotN(a, c, f) > 1e-10) need.insert(g_tychoMesh->getAdjRank(c, f));
        }
        std::set<UINT> has;
        for (UINT p : s.getSendProcs(st)) { if (!has.insert(p).second) fail("%s: rank %d is sent to twice in step %d", what, (int)p, (int)st); Edge e = {(UINT)rank_, st, p, 0}; edges.push_back(e); }
        for (UINT p : need) if (!has.count(p)) fail("%s: step %d computes data for rank %d but does not send to it", what, (int)st, (int)p);
        has.clear();
        for (UINT p : s.getRecvProcs(st)) { if (!has.insert(p).second) fail("%s: received twice from rank %d in step %d", what, (int)p, (int)st); Edge e = {(UINT)rank_, st, p, 1}; edges.push_back(e); }
    }
    for (UINT c = 0; c < g_nCells; c++) for (UINT a : angles) if (seen[c * g_nAngles + a] != 1) { fail("%s: task (cell %d, direction %d) is scheduled %d times", what, (int)c, (int)a, (int)seen[c * g_nAngles + a]); break; }
    std::vector<Edge> ae = gatherAll(edges);
    std::set<std::array<UINT,3>> snd, rcv;
    for (Edge &e : ae) if (e.kind == 0) snd.insert({{e.step, e.rank, e.other}}); else rcv.insert({{e.step, e.other, e.rank}});
    for (auto &x : snd) if (!rcv.count(x)) { fail("%s: step %d: rank %d sends to rank %d, which does not receive", what, (int)x[0], (int)x[1], (int)x[2]); break; }
    for (auto &x : rcv) if (!snd.count(x)) { fail("%s: step %d: rank %d receives from rank %d, which does not send", what, (int)x[0], (int)x[2], (int)x[1]); break; }
    std::vector<At> at = gatherAll(mine);
    std::map<std::pair<UINT,UINT>, At> where;
    for (At &t : at) where[std::make_pair(t.gcell, t.angle)] = t;
    for (UINT c = 0; c < g_nCells; c++) for (UINT a : angles) for (UINT f = 0; f < 4; f++) {
        if (!(g_tychoMesh->getOmegaDotN(a, c, f) < -1e-10)) continue;      // parallel up to rounding
        auto me = where.find(std::make_pair(g_tychoMesh->getLGCell(c), a));
        if (me == where.end()) continue;
        UINT ac = g_tychoMesh->getAdjCell(c, f);
        if (ac != TychoMesh::BOUNDARY_FACE) {
            auto up = where.find(std::make_pair(g_tychoMesh->getLGCell(ac), a));
            if (up == where.end() || up->second.step > me->second.step || (up->second.step == me->second.step && up->second.pos >= me->second.pos)) { fail("%s: cell %d direction %d is scheduled before its upwind neighbour %d", what, (int)c, (int)a, (int)ac); return; }
        } else if (onPartBdry(c, f)) {
            auto up = where.find(std::make_pair(sd.nbr[g_tychoMesh->getSide(c, f)].first, a));
            if (up == where.end() || up->second.step >= me->second.step) { fail("%s: cell %d direction %d is not scheduled after the step of its upwind neighbour on rank %d", what, (int)c, (int)a, sd.nbrRank[g_tychoMesh->getSide(c, f)]); return; }
        }
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    int rep = thorough ? 8 : 2;
    char what[200];
    for (int i = 0; i < rep; i++) for (int k = 0; k < 3; k++) {
        Tets m = k == 0 ? box(2, 2, 1 + rnd(2), 100, 0.0, true) : k == 1 ? box(1 + rnd(3), 2, 1 + rnd(3), 100, 0.1) : box(3, 3, 3, 100, 0, true);
        UINT th = 1 + rnd(3);
        setup(m, partition(m, size_, k == 2 ? Slabs : rnd(2) ? Random : Slabs), size_, k == 2 ? 4 : 2, 1, th);
        Sides sd;
        if (!sd.acyclic()) continue;
        for (UINT intra = 0; intra <= 4; intra++) for (UINT inter = 0; inter <= 2; inter++) {
            UINT maxCells = k == 2 ? 100000 : 1 + rnd(intra == 0 ? 3 : 40);
            std::vector<UINT> angles;
            for (UINT a = rnd(3); a < g_nAngles; a += 1 + rnd(3)) angles.push_back(a);
            if (rnd(2)) { angles.clear(); for (UINT a = 0; a < g_nAngles; a++) angles.push_back(a); }
            sync_ = rnd(2);
            SweepSchedule s(angles, maxCells, intra, inter);
            snprintf(what, sizeof what, "options %d,%d, %d directions, %d cells per step, %d ranks", (int)intra, (int)inter, (int)angles.size(), (int)maxCells, size_);
            check(s, angles, maxCells, sd, what);
            // priorities of the traversal
            g_intraAngleP = intra; g_interAngleP = inter; g_maxCellsPerStep = 1 + rnd(30);
            Mat2<UINT> p(g_nCells, g_nAngles), q(g_nCells, g_nAngles);
            for (size_t j = 0; j < p.size(); j++) { p[j] = 123456789; q[j] = 987654321987ULL; }
            Priorities::calcPriorities(p);
            g_maxCellsPerStep = 1 + rnd(30);
            Priorities::calcPriorities(q);
            for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) {
                cases++;
                if (p(c, a) != q(c, a)) { fail("priority of cell %d direction %d (options %d,%d) is %llu or %llu depending on earlier memory contents", (int)c, (int)a, (int)intra, (int)inter, (unsigned long long)p(c, a), (unsigned long long)q(c, a)); c = g_nCells - 1; break; }
            }
        }
        std::vector<UINT> none;
        SweepSchedule s(none, 5, 1, 1);
        for (UINT st = 0; st < s.nSteps(); st++) if (s.getWork(st).size()) fail("a schedule without directions has work");
    }
    sample("ranks %d, all 15 priority options, 1..100000 cells per step, subsets of the S2/S4 directions", size_);
    return finish();
}
