// angular moments, scattering source, scattering operator, group difference; 1..3 ranks, several thread counts
#include "h.hh"
#include "Util.hh"
using namespace H;

int main(int argc, char **argv)
{
    init(argc, argv);
    for (int rep = 0; rep < (thorough ? 12 : 4); rep++) {
        Tets m = box(2, 1 + rnd(2), 1 + rnd(2));
        UINT nG = 1 + rnd(3);
        setup(m, partition(m, size_), size_, 2 + 2 * rnd(3), nG, 1 + rnd(4));
        PsiData psi, q, tot, back;
        PhiData phi, phi2;
        fill(psi); fill(q); fill(phi); fill(phi2); fill(tot); fill(back);
        for (UINT c = 0; c < g_nCells; c++) { g_sigmaS[c] = uni(0.1, 2); g_sigmaT[c] = uni(2, 3); }
        // total source and operator S
        Util::calcTotalSource(q, phi, tot);
        Util::operatorS(phi, phi2);
        Util::phiToPsi(phi, back);
        for (UINT c = 0; c < g_nCells; c++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < nG; g++) {
            double s = g_sigmaS[c] / (4 * M_PI) * phi(g, v, c);
            cases++;
            if (!close(phi2(g, v, c), s, 1e-12)) fail("operatorS cell %d vertex %d group %d: %g, expected %g", (int)c, (int)v, (int)g, phi2(g, v, c), s);
            for (UINT a = 0; a < g_nAngles; a++) {
                if (!close(tot(g, v, a, c), q(g, v, a, c) + s, 1e-12)) fail("total source cell %d angle %d vertex %d group %d: %g, expected %g", (int)c, (int)a, (int)v, (int)g, tot(g, v, a, c), q(g, v, a, c) + s);
                if (back(g, v, a, c) != phi(g, v, c)) fail("phiToPsi cell %d angle %d", (int)c, (int)a);
            }
        }
        Util::psiToPhi(phi, psi);
        for (UINT c = 0; c < g_nCells; c++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < nG; g++) {
            double s = 0;
            for (UINT a = 0; a < g_nAngles; a++) s += g_quadrature->getWt(a) * psi(g, v, a, c);
            cases++;
            if (!close(phi(g, v, c), s, 1e-11)) fail("psiToPhi cell %d vertex %d group %d: %g, expected %g", (int)c, (int)v, (int)g, phi(g, v, c), s);
        }
        // group difference: scaled so that every rank has the same largest first-group entry
        double d0 = 0, mx = 0;
        for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < 4; v++) {
            for (UINT g = 1; g < nG; g++) d0 = std::max(d0, fabs(psi(g, v, a, c) - psi(0, v, a, c)));
            mx = std::max(mx, fabs(psi(0, v, a, c)));
        }
        double D, M;
        MPI_Allreduce(&d0, &D, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
        MPI_Allreduce(&mx, &M, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
        double d = Util::diffBetweenGroups(psi);
        cases++;
        if (!close(d, D / M, 1e-12)) fail("diffBetweenGroups %g, expected %g", d, D / M);
        sample("ranks %d groups %d angles %d cells %d", size_, (int)nG, (int)g_nAngles, (int)g_nCells);
    }
    return finish();
}
