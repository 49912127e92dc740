// every supported quadrature order, every direction
#include "h.hh"
using namespace H;

int main(int argc, char **argv)
{
    init(argc, argv);
    for (UINT n = 2; n <= 30; n += 2) {
        g_nAngles = 0;
        Quadrature q(n);
        UINT N = 2 * n * n;
        cases++;
        if (g_nAngles != N) { fail("order %lu: %lu directions, expected %lu", n, (UINT)g_nAngles, N); continue; }
        std::vector<std::array<double,4>> d;
        double sw = 0, m1[3] = {0,0,0}, m2[3] = {0,0,0};
        for (UINT a = 0; a < N; a++) {
            std::array<double,4> v = {{q.getXi(a), q.getEta(a), q.getMu(a), q.getWt(a)}};
            std::vector<double> o = q.getOmega(a);
            cases++;
            if (o.size() != 3 || o[0] != v[0] || o[1] != v[1] || o[2] != v[2]) fail("order %lu direction %lu: getOmega differs from getXi/getEta/getMu", n, a);
            double l = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
            if (!(fabs(l - 1) < 1e-12)) fail("order %lu direction %lu: |Omega|^2 = %.17g", n, a, l);
            if (!(v[3] > 0)) fail("order %lu direction %lu: weight %g", n, a, v[3]);
            sw += v[3];
            for (int i = 0; i < 3; i++) { m1[i] += v[3] * v[i]; m2[i] += v[3] * v[i] * v[i]; }
            d.push_back(v);
        }
        if (!(fabs(sw - 4 * M_PI) < 1e-11)) fail("order %lu: weights sum to %.17g", n, sw);
        for (int i = 0; i < 3; i++) {
            if (!(fabs(m1[i]) < 1e-11)) fail("order %lu: first moment on axis %d is %.3g", n, i, m1[i]);
            if (!(fabs(m2[i] - 4 * M_PI / 3) < 1e-11)) fail("order %lu: second moment on axis %d is %.17g", n, i, m2[i]);
        }
        for (UINT a = 0; a < N; a++) {
            for (int ax = -1; ax < 3; ax++) {
                std::array<double,4> r = d[a];
                if (ax >= 0) r[ax] = -r[ax];
                int cnt = 0;
                for (UINT b = 0; b < N; b++) if (fabs(d[b][0] - r[0]) + fabs(d[b][1] - r[1]) + fabs(d[b][2] - r[2]) < 1e-11) {
                    cnt++;
                    if (!(fabs(d[b][3] - r[3]) < 1e-12)) fail("order %lu: direction %lu and its reflection on axis %d have different weights", n, a, ax);
                }
                if (cnt != 1) { fail("order %lu: %s %lu axis %d: %d matches", n, ax < 0 ? "repeated direction" : "reflection of direction", a, ax, cnt); }
            }
        }
        sample("order %lu: %lu directions, sum of weights %.17g", n, N, sw);
    }
    return finish();
}
