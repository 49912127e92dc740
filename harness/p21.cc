// P21: cross sections, manufactured source, error measures
#include "h.hh"
#include "Problem.hh"
#include "Util.hh"
#include <sys/wait.h>
using namespace H;
typedef long double L;

static double gmaxd(double x) { double r; MPI_Allreduce(&x, &r, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD); return r; }

int main(int argc, char **argv)
{
    init(argc, argv);
    for (int it = 0; it < (thorough ? 60 : 16); it++) {
        Tets m = box(1 + rnd(2), 1 + rnd(2), 1 + rnd(2));
        if (m.t.size() < (size_t)size_) continue;
        SerialMesh s = serial(m);
        // place the mesh around the centre of the problem, sometimes with a node exactly there or on the sphere
        double sc = it % 3 == 0 ? 30.0 : it % 3 == 1 ? 3.0 : 60.0;
        double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
        for (auto &n : s.c_nodeData) for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], n.coords[k]); hi[k] = std::max(hi[k], n.coords[k]); }
        UINT pin = rnd(s.c_nodeData.size());
        double at[3];
        for (int k = 0; k < 3; k++) at[k] = it % 2 ? (lo[k] + hi[k]) / 2 : s.c_nodeData[pin].coords[k];
        for (auto &n : s.c_nodeData) for (int k = 0; k < 3; k++) n.coords[k] = 50.0 + (n.coords[k] - at[k]) / (hi[k] - lo[k]) * sc;
        if (it % 2 == 0) for (int k = 0; k < 3; k++) s.c_nodeData[pin].coords[k] = 50.0;
        for (UINT c = 0; c < s.c_numCells; c++) s.c_cellData[c].materialIndex = 1 + rnd(2);
        double T1 = uni(1, 2), S1 = uni(0, 1), T2 = uni(3, 4), S2 = uni(2, 3);
        setup(m, partition(m, size_), size_, 2 + 2 * rnd(3), 1 + rnd(4), 1, T1, S1, T2, S2, &s);
        // cross sections
        for (UINT c = 0; c < g_nCells; c++) {
            cases++;
            bool one = s.c_cellData[g_tychoMesh->getLGCell(c)].materialIndex == 1;
            if (g_sigmaT.size() != g_nCells || g_sigmaS.size() != g_nCells) { fail("cross sections for %zu/%zu of %d cells", g_sigmaT.size(), g_sigmaS.size(), (int)g_nCells); break; }
            if (g_sigmaT[c] != (one ? T1 : T2) || g_sigmaS[c] != (one ? S1 : S2)) fail("cell %d of material %d has cross sections %g %g", (int)c, one ? 1 : 2, g_sigmaT[c], g_sigmaS[c]);
        }
        // source
        PsiData q;
        q.setToValue(7e77);
        Problem::getSource(q);
        for (UINT c = 0; c < g_nCells; c++) for (UINT v = 0; v < 4; v++) {
            auto p = nodePos(g_tychoMesh->getCellNode(c, v));
            L x = (L)p[0] - 50, y = (L)p[1] - 50, z = (L)p[2] - 50, r = sqrtl(x * x + y * y + z * z);
            for (UINT a = 0; a < g_nAngles; a++) {
                L xi = g_quadrature->getXi(a), eta = g_quadrature->getEta(a), mu = g_quadrature->getMu(a);
                L w = 0;
                if (r <= 30) w = (r > 0 ? -(x * xi + y * eta + z * mu) / (30 * r) : 0) + ((L)g_sigmaT[c] - (L)g_sigmaS[c]) * (1 - r / 30);
                for (UINT g = 0; g < g_nGroups; g++) {
                    cases++;
                    double have = q(g, v, a, c);
                    if (fabsl(r - 30) < 1e-9 && have == 0) continue;      // on the sphere up to rounding
                    if (!(fabsl(have - w) < 1e-12 * (1 + fabsl(w)))) fail("source at radius %g direction %d group %d: %g, expected %g", (double)r, (int)a, (int)g, have, (double)w);
                }
            }
        }
        // errors
        PsiData psi;
        local([&] { H::fill(psi, it % 4 ? -1 : 0, 2); });
        L dn[2] = {0, 0}, tot[2];
        double md = 0, mx = 0;
        bool edge = false;
        for (UINT c = 0; c < g_nCells; c++) {
            L x = 0, y = 0, z = 0;
            for (UINT v = 0; v < 4; v++) { auto p = nodePos(g_tychoMesh->getCellNode(c, v)); x += p[0] - 50; y += p[1] - 50; z += p[2] - 50; }
            L r = sqrtl(x * x + y * y + z * z) / 4, hat = r <= 30 ? 1 - r / 30 : 0;
            (void)edge;                                        // the hat is continuous at radius 30
            for (UINT a = 0; a < g_nAngles; a++) for (UINT g = 0; g < g_nGroups; g++) {
                L av = 0;
                for (UINT v = 0; v < 4; v++) {
                    av += psi(g, v, a, c) / (L)4;
                    md = std::max(md, fabs(psi(g, v, a, c) - psi(0, v, a, c)));
                    mx = std::max(mx, fabs(psi(0, v, a, c)));
                }
                dn[0] += (av - hat) * (av - hat);
                dn[1] += av * av;
            }
        }
        MPI_Allreduce(dn, tot, 2, MPI_LONG_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        double want = sqrtl(tot[0] / tot[1]), have = Problem::hatL2Error(psi);
        cases++;
        if (!(fabs(have - want) < 1e-9 * (1 + want))) fail("relative error %g, expected %g", have, want);
        md = gmaxd(md); mx = gmaxd(mx);
        have = Util::diffBetweenGroups(psi);
        if (!(fabs(have - md / mx) < 1e-13 * (1 + md / mx))) fail("group difference %g, expected %g", have, md / mx);
        // any other material is refused
        if (size_ == 1) {
            UINT bad = (const UINT[]){0, 3, 4, UINT64_MAX, (UINT)1 << 32 | 1}[it % 5];
            s.c_cellData[rnd(s.c_numCells)].materialIndex = bad;
            cases++;
            fflush(NULL);
            pid_t p = fork();
            if (p == 0) {
                if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(9);
                signal(SIGABRT, SIG_DFL);
                setup(m, std::vector<uint64_t>(m.t.size(), 0), 1, 2, 1, 1, T1, S1, T2, S2, &s);
                _exit(77);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) fail("material %llu is accepted", (unsigned long long)bad);
        }
    }
    sample("%d cases", (int)cases);
    return finish();
}
