// P14: volumes, areas and direction-normal products against independent geometry
#include "h.hh"
using namespace H;
typedef std::array<long double,3> V3;
static V3 sub(const V3 &a, const V3 &b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static long double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(const V3 &a, const V3 &b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static V3 pos(UINT c, UINT v) { auto x = nodePos(g_tychoMesh->getCellNode(c, v)); return {{x[0], x[1], x[2]}}; }

static void check()
{
    for (UINT c = 0; c < g_nCells; c++) {
        cases++;
        V3 p[4];
        for (int v = 0; v < 4; v++) p[v] = pos(c, v);
        // volume from the determinant about the centroid-free vertex 3
        long double vol = fabsl(dot(sub(p[0], p[3]), cross(sub(p[1], p[3]), sub(p[2], p[3])))) / 6;
        if (!close(g_tychoMesh->getCellVolume(c), (double)vol, 1e-11, (double)vol)) fail("volume of cell %d: %.17g instead of %.17g", (int)c, g_tychoMesh->getCellVolume(c), (double)vol);
        for (UINT f = 0; f < 4; f++) {
            V3 q[3]; int n = 0;
            for (int v = 0; v < 4; v++) if (v != (int)f) q[n++] = p[v];
            V3 N = cross(sub(q[1], q[0]), sub(q[2], q[0]));
            // Heron's formula for the area
            long double a = sqrtl(dot(sub(q[0], q[1]), sub(q[0], q[1]))), b = sqrtl(dot(sub(q[1], q[2]), sub(q[1], q[2]))), d = sqrtl(dot(sub(q[2], q[0]), sub(q[2], q[0])));
            long double s = (a + b + d) / 2, area = sqrtl(s * (s - a) * (s - b) * (s - d));
            if (!close(g_tychoMesh->getFaceArea(c, f), (double)area, 1e-9, (double)area)) fail("area of cell %d face %d: %.17g instead of %.17g", (int)c, (int)f, g_tychoMesh->getFaceArea(c, f), (double)area);
            long double len = sqrtl(dot(N, N));
            if (dot(N, sub(p[f], q[0])) > 0) for (auto &x : N) x = -x;
            for (UINT an = 0; an < g_nAngles; an++) {
                auto o = g_quadrature->getOmega(an);
                double w = (double)((o[0] * N[0] + o[1] * N[1] + o[2] * N[2]) / len), got = g_tychoMesh->getOmegaDotN(an, c, f);
                if (!close(got, w, 1e-10)) fail("cell %d face %d direction %d: Omega.n = %.17g instead of %.17g", (int)c, (int)f, (int)an, got, w);
                bool out = g_tychoMesh->isOutgoing(an, c, f), in = g_tychoMesh->isIncoming(an, c, f);
                if (out != (got > 0) || in != (got < 0)) fail("cell %d face %d direction %d: Omega.n = %.17g but outgoing=%d incoming=%d", (int)c, (int)f, (int)an, got, out, in);
            }
        }
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    for (int it = 0; it < (thorough ? 400 : 60); it++) {
        Tets m;
        if (it % 4 == 0) m = box(1 + rnd(2), 1 + rnd(2), 1 + rnd(2), 10.0, it % 8 ? 0.3 : 0.0);
        else for (int k = 0; k < 5; k++) {        // independent tetrahedra of either orientation, some far from the origin, some thin
            double off = k == 4 ? 50 : 0, h = k == 3 ? 1e-3 : 1;
            for (;;) {
                std::array<double,3> x[4];
                V3 p[4];
                for (int v = 0; v < 4; v++) { x[v] = {{off + uni(-1, 1), off + uni(-1, 1), off + h * uni(-1, 1)}}; p[v] = {{x[v][0], x[v][1], x[v][2]}}; }
                if (fabsl(dot(sub(p[0], p[3]), cross(sub(p[1], p[3]), sub(p[2], p[3])))) < 0.02 * h) continue;
                std::array<uint64_t,4> t;
                for (int v = 0; v < 4; v++) { t[v] = m.x.size(); m.x.push_back(x[v]); }
                m.t.push_back(t); m.mat.push_back(1);
                break;
            }
        }
        if (it % 3 == 2) { double sc = pow(10.0, (double)(it / 3 % 13) - 6); for (auto &x : m.x) for (double &y : x) y *= sc; }       // very small and very large meshes
        setup(m, partition(m, 1), 1, 2 + 2 * rnd(3), 1, 1);
        check();
        if (it == 1) sample("tetrahedra: volume of cell 0 %.6g", g_tychoMesh->getCellVolume(0));
    }
    return finish();
}
