// the four 4x4 elimination methods on random, permuted and badly scaled non-singular matrices
#include "h.hh"
#include "Transport.cc"
using namespace H;

int main(int argc, char **argv)
{
    init(argc, argv);
    GaussElim ge[4] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel};
    int reps = thorough ? 400000 : 60000;
    for (int rep = 0; rep < reps; rep++) {
        double A[4][4], A0[4][4], b[4], x[4];
        int m = rep % 4, kind = (rep / 4) % 4;
        for (int i = 0; i < 4; i++) { x[i] = uni(-1, 1); for (int j = 0; j < 4; j++) A[i][j] = uni(-1, 1); }
        if (m == 1 || kind == 1) for (int i = 0; i < 4; i++) A[i][i] += A[i][i] > 0 ? 4 : -4;      // no pivoting needed
        if (m == 0 && kind == 2) {                                                                   // zeros on the diagonal
            int p[4] = {0, 1, 2, 3};
            for (int i = 4; i > 1; i--) std::swap(p[i - 1], p[rnd(i)]);
            for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) A[i][j] = p[i] == j ? (rnd(2) ? 2 : -2) : (rnd(2) ? 0.0 : uni(-0.3, 0.3));
        }
        if (m == 0 && kind == 3) A[0][0] = 0;
        // skip nearly singular matrices
        double M[4][4]; memcpy(M, A, sizeof A);
        double det = 1;
        for (int c = 0; c < 4; c++) {
            int p = c; for (int r = c; r < 4; r++) if (fabs(M[r][c]) > fabs(M[p][c])) p = r;
            if (p != c) for (int k = 0; k < 4; k++) std::swap(M[p][k], M[c][k]);
            det *= M[c][c];
            if (M[c][c] == 0) break;
            for (int r = c + 1; r < 4; r++) { double f = M[r][c] / M[c][c]; for (int k = c; k < 4; k++) M[r][k] -= f * M[c][k]; }
        }
        if (fabs(det) < 0.05) continue;
        for (int i = 0; i < 4; i++) { b[i] = 0; for (int j = 0; j < 4; j++) b[i] += A[i][j] * x[j]; }
        memcpy(A0, A, sizeof A);
        g_gaussElim = ge[m];
        gaussElim4(A, b);
        cases++;
        for (int i = 0; i < 4; i++)
            if (!(fabs(b[i] - x[i]) < 1e-7))
                { fail("method %d kind %d: x[%d] = %.12g, expected %.12g; first row %g %g %g %g", m, kind, i, b[i], x[i], A0[0][0], A0[0][1], A0[0][2], A0[0][3]); break; }
        sample("method %d det %g", m, det);
    }
    return finish();
}
