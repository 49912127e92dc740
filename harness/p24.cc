// every algorithm, driver, partition, thread count and option against an independent global reference solution
#include "h.hh"
#define getSource getSourceOfTheProblem
#include "Problem.cc"
#undef getSource
#include "Sweeper.hh"
#include "SweeperTraverse.hh"
#include "SweeperPBJ.hh"
#include "SweeperSchur.hh"
#include "SweepSchedule.hh"
#include "GraphTraverser.hh"
#include "SweepData.hh"
#include "SourceIteration.hh"
using namespace H;
static bool sync_ = false;
extern "C" int (MPI_Isend)(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r)
{ return sync_ ? PMPI_Issend(b, n, t, d, g, c, r) : PMPI_Isend(b, n, t, d, g, c, r); }

static Tets mesh;
static uint64_t salt;
static double src(UINT g, UINT node, UINT a, UINT gc)     // external source at a mesh node of a cell
{
    uint64_t h = salt + g * 1000003 + node * 7919 + a * 104729 + gc * 15485863;
    for (int i = 0; i < 3; i++) { h ^= h >> 29; h *= 6364136223846793005ULL; h += 1442695040888963407ULL; }
    return (double)(h >> 40) / (double)(1 << 24) * (1 + g);
}
static std::map<std::array<double,3>, UINT> nodeOf;
static UINT meshNode(UINT c, UINT v) { return nodeOf.at(nodePos(g_tychoMesh->getCellNode(c, v))); }
namespace Problem {
void getSource(PsiData &s)
{
    for (UINT c = 0; c < g_nCells; c++) for (UINT v = 0; v < 4; v++) { UINT n = meshNode(c, v); for (UINT a = 0; a < g_nAngles; a++) for (UINT g = 0; g < g_nGroups; g++) s(g, v, a, c) = src(g, n, a, g_tychoMesh->getLGCell(c)); }
}
}

// ---- reference: own geometry, own local system, own ordering, plain source iteration on the whole mesh
struct Ref
{
    size_t nC; UINT nA, nG;
    std::vector<double> psi;                       // [((c*nA+a)*4+v)*nG+g]
    double &at(size_t c, UINT a, UINT v, UINT g) { return psi[((c * nA + a) * 4 + v) * nG + g]; }
    static void cross(const double *a, const double *b, double *c) { c[0] = a[1]*b[2]-a[2]*b[1]; c[1] = a[2]*b[0]-a[0]*b[2]; c[2] = a[0]*b[1]-a[1]*b[0]; }
    Ref(const double *sT, const double *sS) : nC(mesh.t.size()), nA(g_nAngles), nG(g_nGroups), psi(nC * nA * 4 * nG, 0)
    {
        std::map<std::array<uint64_t,3>, std::vector<std::pair<size_t,int>>> fm;
        std::vector<std::array<std::array<double,3>,4>> nrm(nC);      // outward, scaled by the face area
        std::vector<double> vol(nC);
        for (size_t c = 0; c < nC; c++) {
            for (int f = 0; f < 4; f++) {
                std::array<uint64_t,3> k; double p[3][3];
                for (int v = 0, n = 0; v < 4; v++) if (v != f) { k[n] = mesh.t[c][v]; n++; }
                std::sort(k.begin(), k.end());
                for (int n = 0; n < 3; n++) for (int d = 0; d < 3; d++) p[n][d] = mesh.x[k[n]][d];
                double a[3], b[3], x[3], o = 0;
                for (int d = 0; d < 3; d++) { a[d] = p[1][d] - p[0][d]; b[d] = p[2][d] - p[0][d]; }
                cross(a, b, x);
                for (int d = 0; d < 3; d++) o += x[d] * (mesh.x[mesh.t[c][f]][d] - p[0][d]);
                for (int d = 0; d < 3; d++) nrm[c][f][d] = (o > 0 ? -0.5 : 0.5) * x[d];
                vol[c] = fabs(o) / 6;
                fm[k].push_back(std::make_pair(c, f));
            }
        }
        std::vector<std::array<long,4>> nb(nC, std::array<long,4>{{-1,-1,-1,-1}});
        for (auto &e : fm) if (e.second.size() == 2) { nb[e.second[0].first][e.second[0].second] = e.second[1].first; nb[e.second[1].first][e.second[1].second] = e.second[0].first; }
        std::vector<double> phi(nC * 4 * nG, 0), phi2;
        for (int it = 0; it < 3000; it++) {
            phi2.assign(phi.size(), 0);
            for (UINT a = 0; a < nA; a++) {
                const std::vector<double> om = g_quadrature->getOmega(a);
                std::vector<std::array<double,4>> flow(nC);            // Omega . n * area, antisymmetric by construction
                std::vector<int> need(nC, 0); std::vector<size_t> q;
                for (size_t c = 0; c < nC; c++) for (int f = 0; f < 4; f++) {
                    double s = 0; for (int d = 0; d < 3; d++) s += om[d] * nrm[c][f][d];
                    flow[c][f] = fabs(s) < 1e-12 ? 0 : s;
                    if (flow[c][f] < 0 && nb[c][f] >= 0) need[c]++;
                }
                for (size_t c = 0; c < nC; c++) if (!need[c]) q.push_back(c);
                for (size_t i = 0; i < q.size(); i++) {
                    size_t c = q[i];
                    for (UINT g = 0; g < nG; g++) {
                        double A[4][5];
                        for (int r = 0; r < 4; r++) {
                            A[r][4] = 0;
                            for (int j = 0; j < 4; j++) {
                                double m = vol[c] / 20 * (r == j ? 2 : 1);
                                A[r][j] = sT[c] * m + flow[c][r] / 12;
                                A[r][4] += m * (src(g, mesh.t[c][j], a, c) + sS[c] / (4 * M_PI) * phi[(c * 4 + j) * nG + g]);
                            }
                        }
                        for (int f = 0; f < 4; f++) for (int r = 0; r < 4; r++) for (int j = 0; j < 4; j++) {
                            if (r == f || j == f) continue;
                            double w = flow[c][f] / 12 * (r == j ? 2 : 1);
                            if (flow[c][f] > 0) A[r][j] += w;
                            else if (flow[c][f] < 0 && nb[c][f] >= 0) {
                                size_t n = nb[c][f]; int jn = 0;
                                while (mesh.t[n][jn] != mesh.t[c][j]) jn++;
                                A[r][4] -= w * at(n, a, jn, g);
                            }
                        }
                        for (int k = 0; k < 4; k++) {
                            int p = k; for (int r = k; r < 4; r++) if (fabs(A[r][k]) > fabs(A[p][k])) p = r;
                            for (int j = 0; j < 5; j++) std::swap(A[k][j], A[p][j]);
                            for (int r = 0; r < 4; r++) if (r != k) { double z = A[r][k] / A[k][k]; for (int j = k; j < 5; j++) A[r][j] -= z * A[k][j]; }
                        }
                        for (int v = 0; v < 4; v++) { at(c, a, v, g) = A[v][4] / A[v][v]; phi2[(c * 4 + v) * nG + g] += g_quadrature->getWt(a) * at(c, a, v, g); }
                    }
                    for (int f = 0; f < 4; f++) if (flow[c][f] > 0 && nb[c][f] >= 0 && !--need[nb[c][f]]) q.push_back(nb[c][f]);
                }
                if (q.size() != nC) fail("harness: cyclic mesh");
            }
            double e = 0, n = 0;
            for (size_t i = 0; i < phi.size(); i++) { e += fabs(phi[i] - phi2[i]); n += fabs(phi2[i]); }
            phi = phi2;
            if (e <= 1e-13 * n) break;
        }
    }
};

static void compare(const char *what, const PsiData &p, Ref &ref)
{
    double scale = 0;
    for (double x : ref.psi) scale = std::max(scale, fabs(x));
    for (UINT c = 0; c < g_nCells; c++) for (UINT v = 0; v < 4; v++) {
        UINT gc = g_tychoMesh->getLGCell(c), n = meshNode(c, v), rv = 0;
        while (rv < 3 && mesh.t[gc][rv] != n) rv++;
        for (UINT a = 0; a < g_nAngles; a++) for (UINT g = 0; g < g_nGroups; g++) {
            cases++;
            double want = ref.at(gc, a, rv, g);
            if (!(fabs(p(g, v, a, c) - want) <= 2e-6 * scale)) { fail("%s: global cell %d vertex %d direction %d group %d of %d: %.12g, reference %.12g", what, (int)gc, (int)v, (int)a, (int)g, (int)g_nGroups, p(g, v, a, c), want); return; }
        }
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    static const char *names[] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "Schur", "SchurOuter", "PBJSI", "SchurKrylov"};
    int rep = thorough ? 10 : 2;
    for (int i = 0; i < rep; i++) {
        mesh = i % 2 == 0 ? box(2, 1, 2, 3.0, 0.0, true) : box(1 + rnd(2), 2, 1 + rnd(2), 3.0, 0.1);
        salt = rng();
        nodeOf.clear();
        for (size_t n = 0; n < mesh.x.size(); n++) nodeOf[mesh.x[n]] = n;
        UINT th = 1 + rnd(3), nG = i % 2 == 0 ? 2 + rnd(2) : 1 + rnd(3);
        double sT1 = uni(0.5, 2), sS1 = sT1 * uni(0, 0.8), sT2 = uni(0.5, 2), sS2 = sT2 * uni(0, 0.8);
        setup(mesh, partition(mesh, size_, rnd(2) ? Random : Slabs), size_, i % 2 == 0 ? 2 : 4, nG, th, sT1, sS1, sT2, sS2);
        Sides sd;
        if (!sd.acyclic()) continue;
        std::vector<double> sT, sS;
        for (size_t c = 0; c < mesh.t.size(); c++) { sT.push_back(mesh.mat[c] == 1 ? sT1 : sT2); sS.push_back(mesh.mat[c] == 1 ? sS1 : sS2); }
        Ref ref(sT.data(), sS.data());
        for (int ty = 0; ty < 9; ty++) for (int si = 0; si < 2; si++) {
            g_sweepType = (SweepType)(int)(ty == 0 ? SweepType_OriginalTycho1 : ty == 1 ? SweepType_OriginalTycho2 : ty == 2 ? SweepType_TraverseGraph : ty == 3 ? SweepType_PBJ : ty == 4 ? SweepType_PBJOuter : ty == 5 ? SweepType_Schur : ty == 6 ? SweepType_SchurOuter : ty == 7 ? SweepType_PBJSI : SweepType_SchurKrylov);
            g_useSourceIteration = si;
            g_maxCellsPerStep = 1 + rnd(rnd(2) ? 4 : 200); g_intraAngleP = rnd(5); g_interAngleP = rnd(3);
            g_mpiType = rnd(2) ? MPIType_TychoTwoSided : MPIType_CapsaicinTwoSided;
            g_gaussElim = (GaussElim)rnd(4);
            g_iterMax = 2000; g_errMax = 1e-11; g_ddIterMax = 2000; g_ddErrMax = 1e-11;
            sync_ = rnd(2);
            char what[300];
            snprintf(what, sizeof what, "%s, %s, %d ranks, %d threads, options %d,%d,%d, elimination %d", names[ty], si ? "source iteration" : "Krylov", size_, (int)th, (int)g_maxCellsPerStep, (int)g_intraAngleP, (int)g_interAngleP, (int)g_gaussElim);
            bool comm = ty == 2;
            delete g_graphTraverserForward;
            g_graphTraverserForward = ty < 2 ? NULL : new GraphTraverser(Direction_Forward, comm, SweepData::getDataSizeInBytes());
            SweeperAbstract *s = ty < 2 ? (SweeperAbstract *)new Sweeper() : ty == 2 ? (SweeperAbstract *)new SweeperTraverse() : ty == 3 ? (SweeperAbstract *)new SweeperPBJ() : ty == 4 ? (SweeperAbstract *)new SweeperPBJOuter()
                : ty == 5 ? (SweeperAbstract *)new SweeperSchur() : ty == 6 ? (SweeperAbstract *)new SweeperSchurOuter() : ty == 7 ? (SweeperAbstract *)new SweeperPBJSI() : (SweeperAbstract *)new SweeperSchurKrylov();
            s->solve();
            compare(what, s->getPsi(), ref);
            delete s;
        }
    }
    sample("9 sweep types x 2 drivers, %d ranks, S2/S4, 1-3 groups with different sources, two materials", size_);
    return finish();
}
