// Transport::solve against an independently assembled linear-DG system, every cell/angle/group of random meshes.
#include "h.hh"
#include "Transport.hh"
using namespace H;

int main(int argc, char **argv)
{
    init(argc, argv);
    int reps = thorough ? 12 : 3;
    for (int rep = 0; rep < reps; rep++) {
        Tets m = box(2, 1 + rnd(2), 2);
        UINT nG = 1 + rnd(3);
        setup(m, partition(m, 1), 1, rep % 2 ? 4 : 6, nG, 1);
        GaussElim ge[4] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel};
        for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) {
            g_gaussElim = ge[rnd(4)];
            Mat3<double> lpb(3, 4, nG);
            Mat2<double> q(4, nG), x(4, nG);
            for (UINT g = 0; g < nG; g++) for (UINT v = 0; v < 4; v++) {
                q(v, g) = uni(-2, 2); x(v, g) = 77;
                for (UINT f = 0; f < 3; f++) lpb(f, v, g) = uni(-2, 2);
            }
            double sig = uni(0.01, 5);
            Transport::solve(c, a, sig, lpb, q, x);
            double V = g_tychoMesh->getCellVolume(c), A[4];
            for (UINT f = 0; f < 4; f++) A[f] = g_tychoMesh->getFaceArea(c, f) * g_tychoMesh->getOmegaDotN(a, c, f);
            for (UINT g = 0; g < nG; g++) for (int i = 0; i < 4; i++) {
                double lhs = 0, rhs = 0, mag = 0;
                for (int j = 0; j < 4; j++) {
                    double co = A[i] / 12 + sig * V / 20 * (i == j ? 2 : 1);
                    for (int f = 0; f < 4; f++) if (A[f] > 0 && i != f && j != f) co += A[f] / 12 * (i == j ? 2 : 1);
                    lhs += co * x(j, g); mag += fabs(co * x(j, g));
                    rhs += V / 20 * (i == j ? 2 : 1) * q(j, g);
                }
                for (int f = 0; f < 4; f++) if (A[f] < 0 && i != f)
                    for (int j = 0; j < 4; j++) if (j != f)
                        rhs -= A[f] / 12 * (i == j ? 2 : 1) * lpb(g_tychoMesh->getCellToFaceVrtx(c, f, j), f, g);
                cases++;
                if (!(fabs(lhs - rhs) <= 1e-7 * (mag + fabs(rhs) + 1e-9)))
                    fail("cell %d angle %d group %d row %d method %d: residual %g of %g", (int)c, (int)a, (int)g, i, (int)g_gaussElim, lhs - rhs, mag);
            }
            sample("cell %d angle %d sigma %g method %d psi(0)=%g", (int)c, (int)a, sig, (int)g_gaussElim, x(0, 0));
        }
    }
    return finish();
}
