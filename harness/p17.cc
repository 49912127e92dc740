// P17: fixed point and Krylov drivers with a recording sweep; SourceIteration.cc is included (its operator is local to the file)
#include "h.hh"
#include "SourceIteration.cc"
#include "Util.hh"
using namespace H;
typedef std::vector<double> V;

static V copy(const PsiData &p) { V v(p.size()); for (size_t i = 0; i < v.size(); i++) v[i] = p[i]; return v; }
// own moments and sources
static size_t ip(UINT g, UINT v, UINT c) { return (c * 4 + v) * g_nGroups + g; }
static size_t is(UINT g, UINT v, UINT a, UINT c) { return ((c * g_nAngles + a) * 4 + v) * g_nGroups + g; }
static V moment(const V &psi)
{
    V p(g_nCells * 4 * g_nGroups, 0.0);
    for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++) p[ip(g, v, c)] += g_quadrature->getWt(a) * psi[is(g, v, a, c)];
    return p;
}
static V total(const V &q, const V &phi)      // q may be empty: no external source
{
    V t(g_nCells * g_nAngles * 4 * g_nGroups);
    for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++)
        t[is(g, v, a, c)] = (q.size() ? q[is(g, v, a, c)] : 0.0) + g_sigmaS[c] / (4 * M_PI) * phi[ip(g, v, c)];
    return t;
}
static double maxdiff(const V &a, const V &b) { double m = a.size() == b.size() ? 0 : 1e300; for (size_t i = 0; i < a.size() && i < b.size(); i++) { double d = fabs(a[i] - b[i]) / (1 + fabs(b[i])); if (!(d <= m)) m = d; } return m; }

// psi = D^-1 (source) cell by cell with a mixing of vertices and directions, plus a boundary term unless it is to be zero
struct Mock : SweeperAbstract
{
    struct Call { V source, out; bool zero; };
    std::vector<Call> calls;
    V h; double k;
    V apply(const V &q, bool zero) const
    {
        V o(q.size());
        for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++)
            o[is(g, v, a, c)] = k * (0.5 * q[is(g, v, a, c)] + 0.3 * q[is(g, (v + 1) % 4, (a + 1) % g_nAngles, c)] + 0.1 * q[is((g + 1) % g_nGroups, v, a, c)]) / g_sigmaT[c] + (zero ? 0.0 : h[is(g, v, a, c)]);
        return o;
    }
    void sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound = false)
    {
        V q = copy(source), o = apply(q, zeroPsiBound);
        for (size_t i = 0; i < o.size(); i++) psi[i] = o[i];
        calls.push_back({q, o, zeroPsiBound});
    }
    void solve() {}
};

static void quiet(bool on)
{
    static int so = -1;
    fflush(stdout);
    if (on) { so = dup(1); if (!freopen("/dev/null", "w", stdout)) abort(); }
    else { dup2(so, 1); close(so); }
}

static void fixed(int it)
{
    Mock m;
    PsiData psi, q;
    local([&] { H::fill(psi); H::fill(q, 0, 1); m.h.resize(psi.size()); for (auto &x : m.h) x = uni(0, 1); });
    m.k = uni(0.2, 1.5);
    g_iterMax = it % 4 == 0 ? rnd(4) : 60;
    g_errMax = it % 5 == 4 ? 0.5 : pow(10.0, -(double)rnd(9));
    V phi = moment(copy(psi)), q0 = copy(q), psi0 = copy(psi);
    quiet(true);
    UINT n = SourceIteration::fixedPoint(m, psi, q);
    quiet(false);
    cases++;
    if (n != m.calls.size()) fail("fixedPoint reports %d steps, %zu sweeps were made", (int)n, m.calls.size());
    if (maxdiff(copy(q), q0) != 0) fail("fixedPoint changed the external source");
    double err = 1;
    bool close_call = false;
    for (size_t i = 0; i < m.calls.size(); i++) {
        if (!(err > g_errMax) && !close_call) { fail("fixedPoint goes on after step %zu with relative change %g, tolerance %g", i, err, g_errMax); break; }
        if (i >= g_iterMax) { fail("fixedPoint makes more than %d steps", (int)g_iterMax); break; }
        if (m.calls[i].zero) fail("fixedPoint sweeps with zero incoming data");
        double d = maxdiff(m.calls[i].source, total(q0, phi));
        if (!(d < 1e-11)) { fail("fixedPoint step %zu: the swept source is off by %g", i, d); break; }
        V pn = moment(m.calls[i].out);
        double s[2] = {0, 0}, t[2];
        for (size_t k = 0; k < pn.size(); k++) { s[0] += fabs(pn[k] - phi[k]); s[1] += fabs(pn[k]); }
        MPI_Allreduce(s, t, 2, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        err = t[0] / t[1];
        close_call = fabs(err - g_errMax) < 1e-9 * g_errMax + 1e-13;
        phi = pn;
    }
    if (m.calls.size() < g_iterMax && err > g_errMax && !close_call) fail("fixedPoint stops after %zu steps with relative change %g, tolerance %g", m.calls.size(), err, g_errMax);
    if (m.calls.size() ? maxdiff(copy(psi), m.calls.back().out) != 0 : maxdiff(copy(psi), psi0) != 0) fail("fixedPoint: the flux is not the last sweep's");
    long c = m.calls.size(), mn, mx;
    MPI_Allreduce(&c, &mn, 1, MPI_LONG, MPI_MIN, MPI_COMM_WORLD);
    MPI_Allreduce(&c, &mx, 1, MPI_LONG, MPI_MAX, MPI_COMM_WORLD);
    if (mn != mx) fail("ranks make different numbers of sweeps");
}

static void oper()
{
    Mock m;
    PsiData psi, src;
    V x(g_nCells * 4 * g_nGroups), b(x.size(), 7.0), x0;
    local([&] { H::fill(psi); H::fill(src); m.h.resize(psi.size()); for (auto &y : m.h) y = uni(1, 2); for (auto &y : x) y = uni(-1, 1); });
    m.k = 0.9;
    x0 = x;
    LHSData d(psi, src, m);
    cases++;
    lhsOperator(x.data(), b.data(), &d);
    if (maxdiff(x, x0) != 0) fail("the Krylov operator changes its argument");
    V want = moment(m.apply(total(V(), x), true));
    for (size_t i = 0; i < x.size(); i++) want[i] = x[i] - want[i];
    double e = maxdiff(b, want);
    if (!(e < 1e-11)) fail("the Krylov operator is off by %g", e);
    if (m.calls.size() != 1 || !m.calls[0].zero) fail("the Krylov operator does not sweep once with zero incoming data");
}

static void kry(int it)
{
    Mock m;
    PsiData psi, q;
    local([&] { H::fill(psi); H::fill(q, 0, 1); m.h.resize(psi.size()); for (auto &x : m.h) x = uni(0, 1); });
    m.k = 0.9;
    g_iterMax = 100;
    g_errMax = it % 2 ? 1e-12 : 1e-6;
    V q0 = copy(q);
    quiet(true);
    UINT n = SourceIteration::krylov(m, psi, q);
    quiet(false);
    cases++;
    if (maxdiff(copy(q), q0) != 0) fail("krylov changed the external source");
    if (m.calls.size() < 2) { fail("krylov makes %zu sweeps", m.calls.size()); return; }
    if (m.calls[0].zero || maxdiff(m.calls[0].source, q0) != 0) fail("krylov: the right-hand side is not the sweep of the external source with the given incoming data");
    if (m.calls.back().zero) fail("krylov: the final sweep has zero incoming data");
    for (size_t i = 1; i + 1 < m.calls.size(); i++) if (!m.calls[i].zero) fail("krylov: an operator sweep uses incoming data");
    if (n > m.calls.size()) fail("krylov reports %d iterations for %zu sweeps", (int)n, m.calls.size());
    if (maxdiff(copy(psi), m.calls.back().out) != 0) fail("krylov: the flux is not the last sweep's");
    V phi = moment(copy(psi)), want = m.apply(total(q0, phi), false);
    double e = maxdiff(copy(psi), want);
    if (!(e < (it % 2 ? 1e-8 : 1e-3))) fail("krylov: the result misses the fixed point by %g", e);
}

// the solver wrapper on a small coupled system
static V diag;
static double coupling;
static int applied;
static void sys(const double *x, double *b, void *d)
{
    double s = 0, t;
    size_t n = diag.size();
    for (size_t i = 0; i < n; i++) s += x[i];
    MPI_Allreduce(&s, &t, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    for (size_t i = 0; i < n; i++) b[i] = diag[i] * x[i] + coupling * t;
    *(int *)d += 1;
    applied++;
}
static void solver(int it)
{
    size_t n = 3 + rank_ + rnd(4);
    diag.resize(n);
    V b(n), b0;
    local([&] { for (auto &x : diag) x = uni(1, 3); for (auto &x : b) x = uni(-1, 1); });
    coupling = 0.05;
    int user = 0;
    cases++;
    KrylovSolver ks(n, 1e-12, 200, sys);
    ks.setData(&user);
    double *p = ks.getB();
    for (size_t i = 0; i < n; i++) p[i] = b[i];
    ks.releaseB();
    if (it % 2) { p = ks.getX(); for (size_t i = 0; i < n; i++) p[i] = b[i]; ks.releaseX(); ks.setInitialGuessNonzero(); }
    ks.solve();
    p = ks.getX();
    double s = 0, t, e = 0;
    for (size_t i = 0; i < n; i++) s += p[i];
    MPI_Allreduce(&s, &t, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    for (size_t i = 0; i < n; i++) e = std::max(e, fabs(diag[i] * p[i] + coupling * t - b[i]));
    ks.releaseX();
    if (!(e < 1e-9)) fail("KrylovSolver: residual %g", e);
    if (user < 1) fail("KrylovSolver: the operator was not called with the given data");
    if (ks.getNumIterations() < 1 || ks.getNumIterations() > 200 || !(ks.getResidualNorm() < 1e-8)) fail("KrylovSolver: %d iterations, residual norm %g", (int)ks.getNumIterations(), ks.getResidualNorm());
}

int main(int argc, char **argv)
{
    init(argc, argv);
    for (int it = 0; it < (thorough ? 60 : 12); it++) {
        Tets m = box(1 + rnd(2), 1 + rnd(2), 1);
        if (m.t.size() < (size_t)size_) continue;
        setup(m, partition(m, size_), size_, 2 + 2 * rnd(2), 1 + rnd(3), 1 + rnd(2));
        fixed(it); fixed(it + 2); oper(); kry(it); solver(it);
    }
    sample("%d runs", (int)cases);
    return finish();
}
