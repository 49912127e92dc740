// P12: column partitioner and graph partitioner (the tools' own sources are included; METIS itself is replaced by a recorder)
#include "h.hh"
#include <cassert>
#include <cinttypes>
#include <set>
#include <map>
#include <limits>
namespace columns {
#define main columns_main
#include "PartitionColumns.cc"
#undef main
}
#include <metis.h>
namespace rec {
static idx_t nv, nparts, ncon; static std::vector<idx_t> xadj, adj; static bool weights, called;
static int part(idx_t *n, idx_t *nc, idx_t *xa, idx_t *aj, idx_t *vw, idx_t *vs, idx_t *aw, idx_t *np, real_t *tp, real_t *ub, idx_t *, idx_t *, idx_t *out)
{
    called = true; nv = *n; ncon = *nc; nparts = *np; xadj.assign(xa, xa + *n + 1); adj.clear();
    if (xadj[0] == 0) adj.assign(aj, aj + xa[*n]);
    weights = vw || vs || aw || tp || ub;
    for (idx_t i = 0; i < *n; i++) out[i] = (i * 7 + 3) % *np;
    return METIS_OK;
}
}
namespace metis {
#define main metis_main
#define METIS_PartGraphKway rec::part
#include "PartitionMetis.cc"
#undef main
}
using namespace H;

// runs the tool on a mesh file and reads the parts back from the file it wrote
static std::vector<uint64_t> tool(const SerialMesh &s0, int np, int (*f)(int, char **), std::vector<std::string> args)
{
    SerialMesh s = s0;
    s.write(tmpfile("in.smesh"));
    args.push_back(tmpfile("in.smesh")); args.push_back(tmpfile("out.pmesh"));
    std::vector<char *> a;
    for (auto &x : args) a.push_back(&x[0]);
    fflush(stdout);
    int so = dup(1);
    if (!freopen("/dev/null", "w", stdout)) abort();
    int rc = f((int)a.size(), a.data());
    fflush(stdout);
    dup2(so, 1); close(so);
    if (rc) fail("the tool returned %d", rc);
    ParallelMesh p;
    p.read(tmpfile("out.pmesh"));
    std::vector<uint64_t> part(s.c_numCells, 99999);
    if (p.c_numPartitions != (uint64_t)np) fail("the tool wrote %d parts instead of %d", (int)p.c_numPartitions, np);
    for (uint64_t q = 0; q < p.c_numPartitions; q++) for (auto &c : p.c_partitionData[q].cellData) {
        if (c.globalID >= part.size() || part[c.globalID] != 99999) { fail("cell %ld is in two parts or does not exist", (long)c.globalID); continue; }
        part[c.globalID] = q;
    }
    return part;
}

static void checkColumns(const Tets &m, const SerialMesh &s, int nx, int ny, const std::vector<uint64_t> &part)
{
    cases++;
    uint64_t N = s.c_numCells;
    std::vector<std::vector<size_t>> in(nx * ny);
    for (size_t c = 0; c < N; c++) { if (part[c] >= (uint64_t)(nx * ny)) { fail("cell %d is in part %ld of %d", (int)c, (long)part[c], nx * ny); return; } in[part[c]].push_back(c); }
    auto cen = [&](size_t c, int d) { double x = 0; for (auto v : m.t[c]) x += m.x[v][d]; return x / 4; };
    double lastx = -1e300, eps = 1e-9;
    uint64_t lo = N / nx, hi = (N + nx - 1) / nx;
    for (int i = 0; i < nx; i++) {
        uint64_t n = 0; double mn = 1e300, mx = -1e300;
        for (int j = 0; j < ny; j++) for (size_t c : in[i * ny + j]) { n++; mn = std::min(mn, cen(c, 0)); mx = std::max(mx, cen(c, 0)); }
        if (n < lo || n > hi) fail("%dx%d parts, %d cells: column %d has %d cells", nx, ny, (int)N, i, (int)n);
        if (n && mn < lastx - eps) fail("%dx%d parts: column %d starts at x = %g, a lower one reaches %g", nx, ny, i, mn, lastx);
        if (n) lastx = mx;
        double lasty = -1e300;
        for (int j = 0; j < ny; j++) {
            uint64_t k = in[i * ny + j].size();
            if (k < n / ny || k > (n + ny - 1) / ny) fail("%dx%d parts: part (%d,%d) has %d of %d cells", nx, ny, i, j, (int)k, (int)n);
            double a = 1e300, b = -1e300;
            for (size_t c : in[i * ny + j]) { a = std::min(a, cen(c, 1)); b = std::max(b, cen(c, 1)); }
            if (k && a < lasty - eps) fail("%dx%d parts: part (%d,%d) starts at y = %g, a lower one reaches %g", nx, ny, i, j, a, lasty);
            if (k) lasty = b;
        }
    }
}
static void checkMetis(const SerialMesh &s, int np)
{
    cases++;
    rec::called = false;
    std::vector<uint64_t> part = tool(s, np, metis::metis_main, {"m", std::to_string(np)});
    if (np == 1) { for (auto x : part) if (x != 0) { fail("one part: a cell is in part %ld", (long)x); return; } return; }
    if (!rec::called) { fail("no partitioner call"); return; }
    if (rec::nv != (idx_t)s.c_numCells || rec::nparts != np || rec::ncon != 1 || rec::weights) fail("partitioner called with %d vertices, %d parts, weights %d", (int)rec::nv, (int)rec::nparts, rec::weights);
    for (size_t c = 0; c < s.c_numCells; c++) {
        std::multiset<long> want, got;
        for (auto f : s.c_cellData[c].boundingFaces) for (auto o : s.c_faceData[f].boundingCells) if (o != c && o != SerialMesh::INVALID_INDEX) want.insert((long)o);
        if (rec::xadj[c] > rec::xadj[c + 1] || (size_t)rec::xadj[c + 1] > rec::adj.size()) { fail("adjacency offsets"); return; }
        for (idx_t k = rec::xadj[c]; k < rec::xadj[c + 1]; k++) got.insert((long)rec::adj[k]);
        if (got != want) fail("cell %d: %zu adjacent cells passed on, %zu in the mesh", (int)c, got.size(), want.size());
        if (part[c] != (c * 7 + 3) % np) fail("cell %d: part %ld is not what the partitioner returned", (int)c, (long)part[c]);
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    fflush(stdout);
    for (int it = 0; it < (thorough ? 400 : 80); it++) {
        Tets m = box(1 + rnd(5), 1 + rnd(4), 1 + rnd(3), 10.0, it % 3 ? 0.2 : 0.0);
        if (it % 10 == 0) { m.t.resize(1 + rnd(5)); m.mat.resize(m.t.size()); }
        SerialMesh s = serial(m);
        int nx = 1 + rnd(7), ny = 1 + rnd(5);
        std::vector<uint64_t> part = tool(s, nx * ny, columns::columns_main, {"c", std::to_string(nx), std::to_string(ny)});
        checkColumns(m, s, nx, ny, part);
        checkMetis(s, 1 + rnd(6));
        if (it == 0) sample("%d cells, %d x %d columns", (int)s.c_numCells, nx, ny);
    }
    return finish();
}
