// Common parts of the concrete harnesses: random tetrahedral meshes, set-up of the global problem state,
// reporting.  Everything under test is /repo's own code, compiled from its current sources.
#pragma once
#include <mpi.h>
#include <omp.h>
#include <petscksp.h>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <random>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <sys/stat.h>
#include "Global.hh"
#include "Mat.hh"
#include "Quadrature.hh"
#include "TychoMesh.hh"
#include "PsiData.hh"
#include "SerialMesh.hh"
#include "ParallelMesh.hh"
#include "Problem.hh"
#include "Comm.hh"

namespace H {

static long cases = 0;
static long nfail = 0;
static std::mt19937_64 rng;
static bool thorough = false;
static int rank_ = 0, size_ = 1;

inline void fail(const char *fmt, ...)
{
    ++nfail;
    if (nfail > 12) return;
    char buf[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char *p = buf; *p; p++) if (*p == '\n') *p = ' ';
    printf("FAIL rank %d: %s\n", rank_, buf);
    fflush(stdout);
}
inline void sample(const char *fmt, ...)
{
    static int n = 0;
    if (n++ >= 2 || rank_ != 0) return;
    char buf[1000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    printf("SAMPLE %s\n", buf);
}
inline uint64_t rnd(uint64_t n) { return rng() % n; }
inline double uni(double a = 0, double b = 1) { return a + (b - a) * (double)(rng() >> 11) / 9007199254740992.0; }
inline bool close(double a, double b, double tol = 1e-10, double scale = 1)
{
    if (a == b) return true;
    double m = std::max(std::max(fabs(a), fabs(b)), scale);
    return fabs(a - b) <= tol * m;      // NaN is never close
}
template <class V> void shuffle(V &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rnd(i)]); }

inline void init(int argc, char **argv)
{
    int provided;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_SERIALIZED, &provided);
    PetscInitialize(&argc, &argv, (char *)0, NULL);
    PetscPopSignalHandler();
    MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
    MPI_Comm_size(MPI_COMM_WORLD, &size_);
    const char *s = getenv("VERIF_SEED");
    rng.seed(s ? atoll(s) : 1);          // same stream on every rank
    const char *t = getenv("VERIF_TIER");
    thorough = t && !strcmp(t, "thorough");
    setvbuf(stdout, NULL, _IOLBF, 0);
}
inline int finish()
{
    long tot[2] = {cases, nfail}, all[2];
    MPI_Allreduce(tot, all, 2, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
    if (rank_ == 0) { printf("CASES %ld\n", all[0]); if (!all[1]) printf("DONE\n"); fflush(stdout); }
    PetscFinalize();
    MPI_Finalize();
    return all[1] ? 1 : 0;
}
inline std::string tmpfile(const char *n)
{
    const char *d = getenv("VERIF_TMP");
    return std::string(d ? d : ".") + "/" + n;
}

// ---------------------------------------------------------------- meshes
struct Tets { std::vector<std::array<double,3>> x; std::vector<std::array<uint64_t,4>> t; std::vector<uint64_t> mat; };

// box cut into cubes, each cube into 6 tetrahedra; nodes jittered; order of everything shuffled
inline Tets box(int nx, int ny, int nz, double L = 100.0, double jitter = 0.2, bool scramble = true)
{
    Tets m;
    auto id = [&](int i, int j, int k) { return (uint64_t)((i * (ny + 1) + j) * (nz + 1) + k); };
    for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) for (int k = 0; k <= nz; k++) {
        double h[3] = {L / nx, L / ny, L / nz};
        std::array<double,3> p = {{i * h[0], j * h[1], k * h[2]}};
        if (i > 0 && i < nx) p[0] += uni(-jitter, jitter) * h[0];
        if (j > 0 && j < ny) p[1] += uni(-jitter, jitter) * h[1];
        if (k > 0 && k < nz) p[2] += uni(-jitter, jitter) * h[2];
        m.x.push_back(p);
    }
    int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < nz; k++)
        for (auto &pm : perm) {
            int c[3] = {i, j, k};
            std::array<uint64_t,4> t;
            t[0] = id(c[0], c[1], c[2]);
            for (int s = 0; s < 3; s++) { c[pm[s]]++; t[s + 1] = id(c[0], c[1], c[2]); }
            m.t.push_back(t);
        }
    if (scramble) {
        std::vector<uint64_t> p(m.x.size());
        for (size_t i = 0; i < p.size(); i++) p[i] = i;
        shuffle(p);
        auto x = m.x;
        for (size_t i = 0; i < p.size(); i++) m.x[p[i]] = x[i];
        for (auto &t : m.t) { for (auto &v : t) v = p[v]; shuffle(t); }
        shuffle(m.t);
    }
    for (size_t i = 0; i < m.t.size(); i++) m.mat.push_back(1 + rnd(2));
    return m;
}

inline SerialMesh serial(const Tets &m, bool scramble = true)
{
    SerialMesh s;
    memset(s.c_meshFormatName, 0, sizeof s.c_meshFormatName);
    strcpy(s.c_meshFormatName, "Tycho 2 Serial Mesh");
    s.c_version = 2;
    std::map<std::array<uint64_t,3>, uint64_t> faces;
    s.c_numCells = m.t.size();
    s.c_numNodes = m.x.size();
    s.c_cellData.resize(m.t.size());
    std::vector<SerialMesh::FaceData> fd;
    for (size_t c = 0; c < m.t.size(); c++)
        for (int f = 0; f < 4; f++) {
            std::array<uint64_t,3> k;
            for (int v = 0, n = 0; v < 4; v++) if (v != f) k[n++] = m.t[c][v];
            auto key = k;
            std::sort(key.begin(), key.end());
            auto it = faces.find(key);
            if (it == faces.end()) {
                it = faces.insert(std::make_pair(key, (uint64_t)fd.size())).first;
                SerialMesh::FaceData d;
                d.boundingCells[0] = c; d.boundingCells[1] = SerialMesh::INVALID_INDEX;
                for (int n = 0; n < 3; n++) d.boundingNodes[n] = k[n];
                fd.push_back(d);
            } else fd[it->second].boundingCells[1] = c;
            s.c_cellData[c].boundingFaces[f] = it->second;
            s.c_cellData[c].boundingNodes[f] = m.t[c][f];
            s.c_cellData[c].materialIndex = m.mat[c];
        }
    std::vector<uint64_t> p(fd.size());
    for (size_t i = 0; i < p.size(); i++) p[i] = i;
    if (scramble) shuffle(p);
    s.c_faceData.resize(fd.size());
    s.c_numFaces = fd.size();
    for (size_t i = 0; i < p.size(); i++) {
        s.c_faceData[p[i]] = fd[i];
        auto &d = s.c_faceData[p[i]];
        if (scramble) {
            if (d.boundingCells[1] != SerialMesh::INVALID_INDEX && rnd(2)) std::swap(d.boundingCells[0], d.boundingCells[1]);
            for (int n = 3; n > 1; n--) std::swap(d.boundingNodes[n - 1], d.boundingNodes[rnd(n)]);
        }
    }
    for (auto &c : s.c_cellData) {
        for (auto &f : c.boundingFaces) f = p[f];
        if (scramble) for (int n = 4; n > 1; n--) std::swap(c.boundingFaces[n - 1], c.boundingFaces[rnd(n)]);
    }
    for (auto &x : m.x) { SerialMesh::NodeData d; for (int i = 0; i < 3; i++) d.coords[i] = x[i]; s.c_nodeData.push_back(d); }
    return s;
}

enum Part { Random, Slabs, Columns };
inline std::vector<uint64_t> partition(const Tets &m, int np, Part kind = Random)
{
    std::vector<uint64_t> p(m.t.size());
    std::vector<std::pair<double,size_t>> o;
    for (size_t c = 0; c < p.size(); c++) {
        double x = 0;
        for (auto v : m.t[c]) x += m.x[v][0] + 1e-3 * m.x[v][1];
        o.push_back(std::make_pair(x, c));
    }
    std::sort(o.begin(), o.end());
    for (size_t i = 0; i < p.size(); i++) {
        if (kind == Slabs) p[o[i].second] = i * np / p.size();
        else p[i] = i < (size_t)np ? i : rnd(np);
    }
    return p;
}

// ---------------------------------------------------------------- problem state
inline void freeProblem()
{
    delete g_tychoMesh; g_tychoMesh = NULL;
    delete g_quadrature; g_quadrature = NULL;
}
static std::function<void(ParallelMesh &)> tweak;      // applied to the partitioned mesh before it is written
inline void setup(const Tets &m, const std::vector<uint64_t> &part, int np, UINT snOrder, UINT nGroups, UINT nAngleGroups,
                  double sT1 = 1.5, double sS1 = 0.7, double sT2 = 3.0, double sS2 = 1.1, const SerialMesh *given = NULL)
{
    freeProblem();
    SerialMesh s = given ? *given : serial(m);
    std::string fn = tmpfile("mesh.pmesh");
    MPI_Barrier(MPI_COMM_WORLD);
    if (rank_ == 0) { ParallelMesh pm; pm.createFromSerialMesh(s, part, np); if (tweak) { std::mt19937_64 keep = rng; tweak(pm); rng = keep; } pm.write(fn); }
    MPI_Barrier(MPI_COMM_WORLD);
    g_snOrder = snOrder;
    g_nGroups = nGroups;
    g_nAngleGroups = nAngleGroups;
    g_nThreads = nAngleGroups;
    omp_set_num_threads((int)nAngleGroups);
    g_gaussElim = GaussElim_Original;
    g_iterMax = 100; g_errMax = 1e-12; g_ddIterMax = 100; g_ddErrMax = 1e-12; g_useSourceIteration = true;
    g_maxCellsPerStep = 4; g_intraAngleP = 0; g_interAngleP = 0; g_outputFile = false;
    g_mpiType = MPIType_TychoTwoSided;
    g_quadrature = new Quadrature(snOrder);
    g_tychoMesh = new TychoMesh(fn);
    Problem::createCrossSections(g_sigmaT, g_sigmaS, sT1, sS1, sT2, sS2);
    MPI_Barrier(MPI_COMM_WORLD);
}
inline void fill(PsiData &p, double a = -1, double b = 1) { for (size_t i = 0; i < p.size(); i++) p[i] = uni(a, b); }
inline void fill(PhiData &p, double a = -1, double b = 1) { for (size_t i = 0; i < p.size(); i++) p[i] = uni(a, b); }
inline void fill(PsiBoundData &p, double a = -1, double b = 1) { for (size_t i = 0; i < p.size(); i++) p[i] = uni(a, b); }

// ---------------------------------------------------------------- neighbours across ranks, paired by the position of the
// face's nodes (independent of the mesh's own adjacency tables)
inline UINT sideFace(UINT s)
{
    UINT c = g_tychoMesh->getSideCell(s), f = 0;
    while (f < 4 && !(g_tychoMesh->getAdjCell(c, f) == TychoMesh::BOUNDARY_FACE && g_tychoMesh->getSide(c, f) == s)) f++;
    return f;
}
inline bool onPartBdry(UINT c, UINT f) { return g_tychoMesh->getAdjCell(c, f) == TychoMesh::BOUNDARY_FACE && g_tychoMesh->getAdjRank(c, f) != TychoMesh::BAD_RANK; }
inline std::array<double,3> nodePos(UINT n) { return {{g_tychoMesh->getNodeCoord(n, 0), g_tychoMesh->getNodeCoord(n, 1), g_tychoMesh->getNodeCoord(n, 2)}}; }
template <class T> inline std::vector<T> gatherAll(const std::vector<T> &mine, std::vector<size_t> *offs = NULL)
{
    int n = (int)(mine.size() * sizeof(T));
    std::vector<int> cnt(size_), off(size_ + 1, 0);
    MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 0; i < size_; i++) off[i + 1] = off[i] + cnt[i];
    std::vector<T> all(off[size_] / sizeof(T));
    T dummy;
    MPI_Allgatherv(n ? mine.data() : (const T *)&dummy, n, MPI_BYTE, all.size() ? all.data() : &dummy, cnt.data(), off.data(), MPI_BYTE, MPI_COMM_WORLD);
    if (offs) { offs->clear(); for (int o : off) offs->push_back(o / sizeof(T)); }
    return all;
}
struct Sides
{
    std::vector<UINT> face;                            // side -> face of its cell
    std::vector<std::pair<UINT,UINT>> nbr;             // side -> (global cell, face) on the other rank
    std::vector<int> nbrRank;                          // side -> other rank, -1 on the outer boundary
    std::vector<std::array<double,9>> key;             // side -> sorted node positions
    Sides()
    {
        std::vector<double> mine;
        for (UINT s = 0; s < g_tychoMesh->getNSides(); s++) {
            UINT c = g_tychoMesh->getSideCell(s), f = sideFace(s);
            face.push_back(f);
            if (f == 4) fail("side %d is not a face of its cell %d", (int)s, (int)c);
            std::vector<std::array<double,3>> p;
            for (UINT v = 0; v < 4 && p.size() < 3; v++) if (v != f) p.push_back(nodePos(g_tychoMesh->getCellNode(c, v)));
            std::sort(p.begin(), p.end());
            std::array<double,9> k;
            for (int i = 0; i < 9; i++) { k[i] = p[i / 3][i % 3]; mine.push_back(k[i]); }
            key.push_back(k);
            mine.push_back((double)g_tychoMesh->getLGCell(c)); mine.push_back((double)f); mine.push_back((double)rank_);
        }
        std::vector<double> all = gatherAll(mine);
        std::map<std::vector<double>, std::vector<size_t>> m;
        for (size_t i = 0; i < all.size() / 12; i++) m[std::vector<double>(&all[i * 12], &all[i * 12] + 9)].push_back(i);
        nbr.assign(face.size(), std::make_pair((UINT)-1, (UINT)-1));
        nbrRank.assign(face.size(), -1);
        for (size_t s = 0; s < face.size(); s++) for (size_t i : m[std::vector<double>(&mine[s * 12], &mine[s * 12] + 9)])
            if ((int)all[i * 12 + 11] != rank_) { nbr[s] = std::make_pair((UINT)all[i * 12 + 9], (UINT)all[i * 12 + 10]); nbrRank[s] = (int)all[i * 12 + 11]; }
    }
    // position of face vertex fv of side s among the sorted node positions
    int vpos(UINT s, UINT fv) const
    {
        UINT c = g_tychoMesh->getSideCell(s);
        std::array<double,3> x = nodePos(g_tychoMesh->getCellNode(c, g_tychoMesh->getFaceToCellVrtx(c, face[s], fv)));
        for (int i = 0; i < 3; i++) if (x[0] == key[s][3*i] && x[1] == key[s][3*i+1] && x[2] == key[s][3*i+2]) return i;
        fail("face vertex %d of side %d is not a node of its face", (int)fv, (int)s);
        return 0;
    }
    // what every incoming partition-boundary face of this rank should see of psi (entries elsewhere are left alone)
    void truth(const PsiData &psi, PsiBoundData &pb) const
    {
        std::vector<double> mine;
        UINT w = 10 + 3 * g_nAngles * g_nGroups;
        for (UINT s = 0; s < face.size(); s++) {
            if (nbrRank[s] < 0) continue;
            UINT c = g_tychoMesh->getSideCell(s);
            size_t o = mine.size();
            mine.resize(o + w);
            for (int i = 0; i < 9; i++) mine[o + i] = key[s][i];
            mine[o + 9] = rank_;
            for (UINT v = 0; v < 4; v++) if (v != face[s]) {
                std::array<double,3> x = nodePos(g_tychoMesh->getCellNode(c, v));
                int i = 0;
                while (i < 2 && !(x[0] == key[s][3*i] && x[1] == key[s][3*i+1] && x[2] == key[s][3*i+2])) i++;
                for (UINT a = 0; a < g_nAngles; a++) for (UINT g = 0; g < g_nGroups; g++) mine[o + 10 + (i * g_nAngles + a) * g_nGroups + g] = psi(g, v, a, c);
            }
        }
        std::vector<double> all = gatherAll(mine);
        std::map<std::pair<std::array<double,9>,int>, size_t> m;
        for (size_t i = 0; i < all.size() / w; i++) {
            std::array<double,9> k;
            for (int j = 0; j < 9; j++) k[j] = all[i * w + j];
            m[std::make_pair(k, (int)all[i * w + 9])] = i;
        }
        for (UINT s = 0; s < face.size(); s++) {
            if (nbrRank[s] < 0) continue;
            UINT c = g_tychoMesh->getSideCell(s);
            size_t i = m.at(std::make_pair(key[s], nbrRank[s]));
            for (UINT fv = 0; fv < 3; fv++) { int q = vpos(s, fv); for (UINT a = 0; a < g_nAngles; a++) if (g_tychoMesh->getOmegaDotN(a, c, face[s]) < 0)
                for (UINT g = 0; g < g_nGroups; g++) pb(g, fv, a, s) = all[i * w + 10 + (q * g_nAngles + a) * g_nGroups + g]; }
        }
    }
    // a direction whose upwind relation has a cycle cannot be swept by any order
    bool acyclic() const
    {
        std::vector<double> e;
        for (UINT c = 0; c < g_nCells; c++) for (UINT f = 0; f < 4; f++) {
            UINT ac = g_tychoMesh->getAdjCell(c, f), to;
            if (ac != TychoMesh::BOUNDARY_FACE) to = g_tychoMesh->getLGCell(ac);
            else if (nbrRank[g_tychoMesh->getSide(c, f)] >= 0) to = nbr[g_tychoMesh->getSide(c, f)].first;
            else continue;
            for (UINT a = 0; a < g_nAngles; a++) if (g_tychoMesh->getOmegaDotN(a, c, f) > 0) { e.push_back(a); e.push_back((double)g_tychoMesh->getLGCell(c)); e.push_back((double)to); }
        }
        std::vector<double> all = gatherAll(e);
        UINT N = 0;
        for (size_t i = 0; i < all.size() / 3; i++) N = std::max(N, (UINT)std::max(all[3 * i + 1], all[3 * i + 2]) + 1);
        for (UINT a = 0; a < g_nAngles; a++) {
            std::vector<std::vector<UINT>> g(N); std::vector<int> d(N, 0); std::vector<UINT> q;
            for (size_t i = 0; i < all.size() / 3; i++) if ((UINT)all[3 * i] == a) { g[(UINT)all[3 * i + 1]].push_back((UINT)all[3 * i + 2]); d[(UINT)all[3 * i + 2]]++; }
            for (UINT i = 0; i < N; i++) if (!d[i]) q.push_back(i);
            for (size_t i = 0; i < q.size(); i++) for (UINT t : g[q[i]]) if (!--d[t]) q.push_back(t);
            if (q.size() != N) return false;
        }
        return true;
    }
};
// run f with a random stream of this rank's own; the common stream is advanced alike on all ranks
template <class F> inline void local(F f)
{
    std::mt19937_64 keep = rng;
    rng.seed(rng() + 77 * rank_);
    f();
    rng = keep; rng();
}

} // namespace H
