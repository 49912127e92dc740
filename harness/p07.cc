// directions are split over the groups completely, contiguously and evenly; both maps agree with such a split
#include "h.hh"
#include "Sweeper.hh"
#include "SweepSchedule.hh"
#include "GraphTraverser.hh"
extern UINT angleGroupIndex(UINT angle);
using namespace H;

static void check(const char *what, const std::vector<UINT> &group, UINT n)
{
    std::vector<UINT> size(n, 0);
    for (size_t a = 0; a < group.size(); a++) {
        cases++;
        if (group[a] >= n) { fail("%s: direction %d of %d in group %d of %d", what, (int)a, (int)group.size(), (int)group[a], (int)n); return; }
        if (a && group[a] < group[a - 1]) fail("%s: direction %d of %d is in group %d, after group %d", what, (int)a, (int)group.size(), (int)group[a], (int)group[a - 1]);
        size[group[a]]++;
    }
    UINT lo = group.size() / n, hi = lo + (group.size() % n ? 1 : 0);
    for (UINT g = 0; g < n; g++) if (size[g] < lo || size[g] > hi) fail("%s: %d directions over %d groups: group %d has %d", what, (int)group.size(), (int)n, (int)g, (int)size[g]);
}

int main(int argc, char **argv)
{
    init(argc, argv);
    for (UINT nA = 1; nA <= (thorough ? 700 : 260); nA++) for (UINT n = 1; n <= (thorough ? 70 : 40); n++) {
        g_nAngles = nA; g_nThreads = n; g_nAngleGroups = n;
        std::vector<UINT> g;
        for (UINT a = 0; a < nA; a++) g.push_back(angleGroupIndex(a));
        check("angleGroupIndex", g, n);
    }
    Tets m = box(1, 1, 1);
    std::vector<uint64_t> part = partition(m, size_);
    for (UINT order = 2; order <= 6; order += 2) for (UINT n = 1; n <= (thorough ? 40 : 14); n++) {
        setup(m, part, size_, order, 1, n);
        g_maxCellsPerStep = 1000;
        omp_set_num_threads(2);
        Sweeper sw;
        std::vector<UINT> g(g_nAngles, UINT64_MAX);
        for (UINT i = 0; i < n; i++) for (UINT s = 0; s < g_sweepSchedule[i]->nSteps(); s++) for (auto &w : g_sweepSchedule[i]->getWork(s)) {
            UINT a = w.getAngle();
            if (a >= g_nAngles) { fail("schedule of group %d has direction %d of %d", (int)i, (int)a, (int)g_nAngles); continue; }
            if (g[a] != UINT64_MAX && g[a] != i) fail("direction %d is in the schedules of groups %d and %d", (int)a, (int)g[a], (int)i);
            g[a] = i;
        }
        check("sweep schedule", g, n);
        for (UINT a = 0; a < g_nAngles; a++) if (g[a] != angleGroupIndex(a)) fail("direction %d of %d, %d groups: schedule group %d, traversal group %d", (int)a, (int)g_nAngles, (int)n, (int)g[a], (int)angleGroupIndex(a));
    }
    sample("angleGroupIndex up to 260 directions, 40 groups; schedules of S2..S6 for up to 14 groups");
    return finish();
}
