// populateLocalPsiBound on 1 and several ranks: every face vertex carries the upwind value
#include "h.hh"
#include "Transport.hh"
using namespace H;

int main(int argc, char **argv)
{
    init(argc, argv);
    for (int rep = 0; rep < (thorough ? 6 : 2); rep++) {
        Tets m = box(2, 2, 1 + rnd(2));
        SerialMesh s = serial(m);
        std::vector<uint64_t> part = partition(m, size_, rep % 2 ? Slabs : Random);
        UINT nG = 2;
        setup(m, part, size_, 4, nG, 1, 1.5, .7, 3, 1.1, &s);
        PsiData psi; PsiBoundData pb;
        fill(psi); fill(pb);
        Mat3<double> l(3, 4, nG);
        // geometry of this rank from the serial mesh
        for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) {
            for (UINT g = 0; g < nG; g++) for (int f = 0; f < 4; f++) for (int k = 0; k < 3; k++) l(k, f, g) = 99;
            Transport::populateLocalPsiBound(a, c, psi, pb, l);
            for (UINT f = 0; f < 4; f++) for (UINT k = 0; k < 3; k++) for (UINT g = 0; g < nG; g++) {
                double want = 0;
                UINT adj = g_tychoMesh->getAdjCell(c, f);
                UINT node = g_tychoMesh->getCellNode(c, g_tychoMesh->getFaceToCellVrtx(c, f, k));
                if (!(g_tychoMesh->getOmegaDotN(a, c, f) > 0)) {
                    if (adj != TychoMesh::BOUNDARY_FACE) {
                        for (UINT v = 0; v < 4; v++) if (g_tychoMesh->getCellNode(adj, v) == node) want = psi(g, v, a, adj);
                    } else if (g_tychoMesh->getAdjRank(c, f) != TychoMesh::BAD_RANK)
                        want = pb(g, k, a, g_tychoMesh->getSide(c, f));
                }
                if (g_tychoMesh->getOmegaDotN(a, c, f) == 0) continue;      // parallel: neither incoming nor outgoing
                cases++;
                if (l(k, f, g) != want) fail("cell %d face %d vertex %d angle %d group %d: %g, expected %g", (int)c, (int)f, (int)k, (int)a, (int)g, l(k, f, g), want);
            }
        }
        sample("ranks %d cells %d sides %d", size_, (int)g_nCells, (int)g_tychoMesh->getNSides());
    }
    return finish();
}
