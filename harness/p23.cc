// P23: every threaded loop under the race detector (OpenMP runtime replaced by omp_shim.cc), and results compared bit by bit
// between thread counts
#include "h.hh"
#include "Util.hh"
#include "Sweeper.hh"
#include "SweeperTraverse.hh"
#include "SweeperPBJ.hh"
#include "SweepData.hh"
#include "GraphTraverser.hh"
#include "Priorities.hh"
#include "SweepSchedule.hh"
#include "Problem.hh"
using namespace H;
typedef std::vector<double> V;
template <class T> static V copy(const T &p) { V v(p.size()); for (size_t i = 0; i < v.size(); i++) v[i] = p[i]; return v; }

static std::map<std::string, V> ref;
static void same(const std::string &what, const V &v, UINT th)
{
    cases++;
    if (!ref.count(what)) { ref[what] = v; return; }
    const V &r = ref[what];
    if (r.size() != v.size()) { fail("%s: %zu values with %d threads, %zu with one", what.c_str(), v.size(), (int)th, r.size()); return; }
    for (size_t i = 0; i < r.size(); i++) if (memcmp(&r[i], &v[i], 8)) { fail("%s: value %zu is %.17g with %d threads, %.17g with one", what.c_str(), i, v[i], (int)th, r[i]); return; }
}

static void quiet(bool on)
{
    static int so = -1;
    fflush(stdout);
    if (on) { so = dup(1); if (!freopen("/dev/null", "w", stdout)) abort(); }
    else { dup2(so, 1); close(so); }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    for (int rep = 0; rep < (thorough ? 6 : 2); rep++) {
        Tets m = box(1 + rnd(3), 2, 1 + rnd(3));
        SerialMesh s = serial(m);
        std::vector<uint64_t> part = partition(m, size_);
        UINT order = 2 + 2 * rnd(2), nG = 1 + rnd(3), ia = rnd(6), ie = rnd(4), mx = 1 + rnd(20);
        uint64_t seed = rng();
        ref.clear();
        const UINT ths[] = {1, 2, 3, 4, 7};
        for (UINT th : ths) {
            setup(m, part, size_, order, nG, th, 1.5, .7, 3, 1.1, &s);
            rng.seed(seed + rank_);
            PsiData psi, q, tot, back;
            PhiData phi, phi1;
            fill(psi); fill(q); fill(phi);
            quiet(true);
            Util::psiToPhi(phi1, psi); same("psiToPhi", copy(phi1), th);
            Util::phiToPsi(phi, back); same("phiToPsi", copy(back), th);
            Util::calcTotalSource(q, phi, tot); same("calcTotalSource", copy(tot), th);
            Util::calcTotalSource(q, phi, q); same("calcTotalSource in place", copy(q), th);
            Util::operatorS(phi, phi1); same("operatorS", copy(phi1), th);
            same("diffBetweenGroups", V(1, Util::diffBetweenGroups(psi)), th);
            same("hatL2Error", V(1, Problem::hatL2Error(psi)), th);
            g_intraAngleP = ia; g_interAngleP = ie; g_maxCellsPerStep = mx;
            Mat2<UINT> pr(g_nCells, g_nAngles);
            Sides sd;
            if (sd.acyclic()) {
                Priorities::calcPriorities(pr);
                if (ia != 0 && ie != 0) { V v; for (size_t i = 0; i < pr.size(); i++) v.push_back(pr[i]); if (th > 1 || true) same("priorities", v, th); }
                for (int ty = 0; ty < 3; ty++) {
                    g_sweepType = ty == 0 ? SweepType_OriginalTycho1 : ty == 1 ? SweepType_OriginalTycho2 : SweepType_TraverseGraph;
                    g_mpiType = rep % 2 ? MPIType_TychoTwoSided : MPIType_CapsaicinTwoSided;
                    delete g_graphTraverserForward;
                    g_graphTraverserForward = new GraphTraverser(Direction_Forward, true, SweepData::getDataSizeInBytes());
                    SweeperAbstract *w = ty < 2 ? (SweeperAbstract *)new Sweeper() : (SweeperAbstract *)new SweeperTraverse();
                    psi.setToValue(0.0);
                    w->sweep(psi, tot, false);
                    same(ty == 0 ? "scheduled sweep 1" : ty == 1 ? "scheduled sweep 2" : "traversal sweep", copy(psi), th);
                    delete w;
                }
                delete g_graphTraverserForward;
                g_graphTraverserForward = new GraphTraverser(Direction_Forward, false, SweepData::getDataSizeInBytes());
                PsiBoundData pb;
                rng.seed(seed + 5 + rank_);
                fill(pb, 0, 1);
                Util::sweepLocal(psi, tot, pb);
                same("local sweep", copy(psi), th);
            }
            quiet(false);
        }
    }
    sample("%d comparisons, 1-7 threads, %d ranks", (int)cases, size_);
    return finish();
}
