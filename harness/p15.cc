// P15: the refinement tool (its own source is included; run through its main on mesh files)
#include "h.hh"
#include <cassert>
#include <cfloat>
#include <cinttypes>
#include <limits>
namespace refine {
#define main refine_main
#include "RefineSerialMesh.cc"
#undef main
}
using namespace H;
typedef std::array<double,3> V3;
static V3 P(const SerialMesh &m, uint64_t n) { return {{m.c_nodeData[n].coords[0], m.c_nodeData[n].coords[1], m.c_nodeData[n].coords[2]}}; }
static V3 sub(const V3 &a, const V3 &b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static V3 cross(const V3 &a, const V3 &b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double det(const V3 &a, const V3 &b, const V3 &c, const V3 &d) { return dot(sub(b, a), cross(sub(c, a), sub(d, a))) / 6; }
static double area(const V3 &a, const V3 &b, const V3 &c) { V3 n = cross(sub(b, a), sub(c, a)); return sqrt(dot(n, n)) / 2; }

static SerialMesh tool(SerialMesh s)
{
    s.write(tmpfile("in.smesh"));
    std::string a0 = "r", a1 = tmpfile("in.smesh"), a2 = tmpfile("out.smesh");
    char *a[] = {&a0[0], &a1[0], &a2[0]};
    fflush(stdout);
    int so = dup(1);
    if (!freopen("/dev/null", "w", stdout)) abort();
    int rc = refine::refine_main(3, a);
    fflush(stdout);
    dup2(so, 1); close(so);
    if (rc) fail("the tool returned %d", rc);
    SerialMesh r;
    r.read(a2);
    return r;
}

static void check(const SerialMesh &s, const SerialMesh &r)
{
    for (auto &c : r.c_cellData) for (int i = 0; i < 4; i++) if (c.boundingFaces[i] >= r.c_numFaces || c.boundingNodes[i] >= r.c_numNodes) { fail("index out of range"); return; }
    for (auto &f : r.c_faceData) {
        for (auto n : f.boundingNodes) if (n >= r.c_numNodes) { fail("face node out of range"); return; }
        if (f.boundingCells[0] >= r.c_numCells || (f.boundingCells[1] >= r.c_numCells && f.boundingCells[1] != SerialMesh::INVALID_INDEX)) { fail("face cell out of range"); return; }
    }
    std::set<V3> pos;
    for (uint64_t n = 0; n < r.c_numNodes; n++) if (!pos.insert(P(r, n)).second) fail("two refined nodes at one place");
    std::vector<std::multiset<uint64_t>> users(r.c_numFaces);
    for (uint64_t c = 0; c < r.c_numCells; c++) {
        std::set<std::set<uint64_t>> want, got;
        for (int i = 0; i < 4; i++) {
            std::set<uint64_t> w;
            for (int j = 0; j < 4; j++) if (j != i) w.insert(r.c_cellData[c].boundingNodes[j]);
            if (w.size() != 3) fail("cell %d repeats a node", (int)c);
            want.insert(w);
            auto &f = r.c_faceData[r.c_cellData[c].boundingFaces[i]];
            got.insert(std::set<uint64_t>(f.boundingNodes, f.boundingNodes + 3));
            users[r.c_cellData[c].boundingFaces[i]].insert(c);
        }
        if (want != got) fail("refined cell %d: its faces are not its vertex triples", (int)c);
    }
    for (uint64_t f = 0; f < r.c_numFaces; f++) {
        std::multiset<uint64_t> w;
        for (auto c : r.c_faceData[f].boundingCells) if (c != SerialMesh::INVALID_INDEX) w.insert(c);
        if (w != users[f]) fail("face %d names %zu cells, %zu cells name it", (int)f, w.size(), users[f].size());
    }
    // pieces inside parents
    std::vector<double> vol(s.c_numCells, 0);
    for (uint64_t c = 0; c < r.c_numCells; c++) {
        cases++;
        V3 q[4], cen = {{0, 0, 0}};
        for (int i = 0; i < 4; i++) { q[i] = P(r, r.c_cellData[c].boundingNodes[i]); for (int k = 0; k < 3; k++) cen[k] += q[i][k] / 4; }
        int par = -1;
        for (uint64_t p = 0; p < s.c_numCells && par < 0; p++) {
            V3 v[4];
            for (int i = 0; i < 4; i++) v[i] = P(s, s.c_cellData[p].boundingNodes[i]);
            double D = det(v[0], v[1], v[2], v[3]);
            bool in = true;
            for (int i = 0; i < 4; i++) { V3 w[4] = {v[0], v[1], v[2], v[3]}; w[i] = cen; in = in && det(w[0], w[1], w[2], w[3]) / D > 1e-9; }
            if (!in) continue;
            par = (int)p;
            for (int k = 0; k < 4; k++) for (int i = 0; i < 4; i++) { V3 w[4] = {v[0], v[1], v[2], v[3]}; w[i] = q[k]; if (det(w[0], w[1], w[2], w[3]) / D < -1e-9) fail("refined cell %d sticks out of its parent %d", (int)c, par); }
        }
        if (par < 0) { fail("refined cell %d lies in no cell of the original mesh", (int)c); continue; }
        double V = fabs(det(q[0], q[1], q[2], q[3]));
        if (V <= 0) fail("refined cell %d is flat", (int)c);
        vol[par] += V;
        if (r.c_cellData[c].materialIndex != s.c_cellData[par].materialIndex) fail("refined cell %d has material %ld, its parent %ld", (int)c, (long)r.c_cellData[c].materialIndex, (long)s.c_cellData[par].materialIndex);
    }
    for (uint64_t p = 0; p < s.c_numCells; p++) {
        V3 v[4];
        for (int i = 0; i < 4; i++) v[i] = P(s, s.c_cellData[p].boundingNodes[i]);
        double V = fabs(det(v[0], v[1], v[2], v[3]));
        if (!close(vol[p], V, 1e-9, V)) fail("pieces of cell %d have volume %.12g instead of %.12g", (int)p, vol[p], V);
    }
    // overlap: random points lie in exactly one piece
    for (int k = 0; k < 60; k++) {
        uint64_t p = rnd(s.c_numCells);
        double l[4], t = 0;
        for (double &x : l) { x = uni(0.01, 1); t += x; }
        V3 x = {{0, 0, 0}};
        for (int i = 0; i < 4; i++) for (int d = 0; d < 3; d++) x[d] += l[i] / t * P(s, s.c_cellData[p].boundingNodes[i])[d];
        int strict = 0, loose = 0;
        for (auto &c : r.c_cellData) {
            V3 v[4];
            for (int i = 0; i < 4; i++) v[i] = P(r, c.boundingNodes[i]);
            double D = det(v[0], v[1], v[2], v[3]), mn = 1;
            for (int i = 0; i < 4; i++) { V3 w[4] = {v[0], v[1], v[2], v[3]}; w[i] = x; mn = std::min(mn, det(w[0], w[1], w[2], w[3]) / D); }
            strict += mn > 1e-9; loose += mn > -1e-9;
        }
        if (strict > 1 || loose < 1) fail("a point of cell %d lies in %d refined cells", (int)p, strict > 1 ? strict : loose);
    }
    // boundary
    for (int outer = 0; outer < 1; outer++) {
        std::vector<double> ar(s.c_numFaces, 0);
        for (uint64_t f = 0; f < r.c_numFaces; f++) {
            auto &F = r.c_faceData[f];
            if (F.boundingCells[1] != SerialMesh::INVALID_INDEX) continue;
            V3 q[3];
            for (int i = 0; i < 3; i++) q[i] = P(r, F.boundingNodes[i]);
            bool found = false;
            for (uint64_t g = 0; g < s.c_numFaces && !found; g++) {
                auto &G = s.c_faceData[g];
                if (G.boundingCells[0] != SerialMesh::INVALID_INDEX && G.boundingCells[1] != SerialMesh::INVALID_INDEX) continue;
                V3 a = P(s, G.boundingNodes[0]), b = P(s, G.boundingNodes[1]), c = P(s, G.boundingNodes[2]);
                double A = area(a, b, c);
                bool in = true;
                for (auto &x : q) in = in && fabs(area(x, b, c) + area(a, x, c) + area(a, b, x) - A) < 1e-9 * A;
                if (in) { found = true; ar[g] += area(q[0], q[1], q[2]); }
            }
            if (!found) fail("refined boundary face %d is not on the original boundary", (int)f);
        }
        for (uint64_t g = 0; g < s.c_numFaces; g++) {
            auto &G = s.c_faceData[g];
            if (G.boundingCells[0] != SerialMesh::INVALID_INDEX && G.boundingCells[1] != SerialMesh::INVALID_INDEX) continue;
            double A = area(P(s, G.boundingNodes[0]), P(s, G.boundingNodes[1]), P(s, G.boundingNodes[2]));
            if (!close(ar[g], A, 1e-9, A)) fail("original boundary face %d is covered by area %.12g of %.12g", (int)g, ar[g], A);
        }
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    for (int it = 0; it < (thorough ? 60 : 16); it++) {
        Tets m = box(1 + rnd(2), 1 + rnd(2), 1 + rnd(2), it % 4 == 3 ? 1e-3 : 10.0, it % 3 ? 0.3 : 0.0);
        double st[3] = {1, it % 5 == 0 ? 7.0 : 1.0, it % 5 == 1 ? 0.2 : 1.0};      // stretched: other octahedron diagonals
        for (auto &x : m.x) for (int k = 0; k < 3; k++) x[k] = x[k] * st[k] + (it % 2 ? -3.0 : 0.0) + (k ? 0.37 * x[0] : 0);
        if (it == 2) { m.t.resize(1); m.mat.resize(1); }
        for (auto &x : m.mat) x = 1 + rnd(5);
        SerialMesh s = serial(m);
        if (it == 2) { SerialMesh q = s; }
        SerialMesh r = tool(s);
        check(s, r);
        if (it % 4 == 0) check(r, tool(r));
        if (it == 0) sample("%d cells refined to %d", (int)s.c_numCells, (int)r.c_numCells);
    }
    return finish();
}
