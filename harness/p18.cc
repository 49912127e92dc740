// P18: boundary packing, Schur operators and block-Jacobi steps; both solver files are included, their local sweeps,
// exchanges and inner solves recorded
#include "h.hh"
#include "Util.hh"
#include "SweepData.hh"
#include "GraphTraverser.hh"
#include "CommSides.hh"
#include "SourceIteration.hh"
#include "KrylovSolver.hh"
#include "Problem.hh"
using namespace H;
typedef std::vector<double> V;
static V copy(const PsiData &p) { V v(p.size()); for (size_t i = 0; i < v.size(); i++) v[i] = p[i]; return v; }
static V copy(const PhiData &p) { V v(p.size()); for (size_t i = 0; i < v.size(); i++) v[i] = p[i]; return v; }
static V copy(const PsiBoundData &p) { V v(p.size()); for (size_t i = 0; i < v.size(); i++) v[i] = p[i]; return v; }
static void paste(const V &v, PsiData &p) { for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; }
static void paste(const V &v, PsiBoundData &p) { for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; }
static double maxdiff(const V &a, const V &b) { double m = a.size() == b.size() ? 0 : 1e300; for (size_t i = 0; i < a.size() && i < b.size(); i++) { double d = fabs(a[i] - b[i]) / (1 + fabs(b[i])); if (!(d <= m)) m = d; } return m; }

struct Ev { char kind; V source, bound, before, out; UINT n; };      // L local sweep, O/o inner solve (begin/end)
static std::vector<Ev> evs;
static bool record = true;
namespace Util {
void recLocal(PsiData &psi, const PsiData &source, PsiBoundData &bound)
{
    Ev e; e.kind = 'L'; e.source = copy(source); e.bound = copy(bound); e.before = copy(psi);
    sweepLocal(psi, source, bound);
    e.out = copy(psi);
    if (record) evs.push_back(e);
}
}
namespace SourceIteration {
template <class F> UINT recInner(F f, SweeperAbstract &s, PsiData &psi, const PsiData &q)
{
    Ev e; e.kind = 'O'; e.source = copy(q); e.before = copy(psi);
    if (record) evs.push_back(e);
    UINT n = f(s, psi, const_cast<PsiData &>(q));
    e.kind = 'o'; e.out = copy(psi); e.n = n;
    if (record) evs.push_back(e);
    return n;
}
UINT recFixed(SweeperAbstract &s, PsiData &psi, const PsiData &q) { return recInner(fixedPoint, s, psi, q); }
UINT recKrylov(SweeperAbstract &s, PsiData &psi, const PsiData &q) { return recInner(krylov, s, psi, q); }
}
#define sweepLocal recLocal
#define fixedPoint recFixed
#define krylov recKrylov
#include "SweeperSchur.cc"
#include "SweeperPBJ.cc"
#undef sweepLocal
#undef fixedPoint
#undef krylov

static void quiet(bool on)
{
    static int so = -1;
    fflush(stdout);
    if (on) { so = dup(1); if (!freopen("/dev/null", "w", stdout)) abort(); }
    else { dup2(so, 1); close(so); }
}

static size_t ib(UINT g, UINT k, UINT a, UINT s) { return ((s * g_nAngles + a) * 3 + k) * g_nGroups + g; }
// which entries are incoming partition-boundary data
static std::vector<char> inc;
static void incoming()
{
    inc.assign(PsiBoundData().size(), 0);
    for (UINT s = 0; s < g_tychoMesh->getNSides(); s++) {
        UINT c = g_tychoMesh->getSideCell(s), f = sideFace(s);
        if (f > 3 || !onPartBdry(c, f)) continue;
        for (UINT a = 0; a < g_nAngles; a++) if (g_tychoMesh->getOmegaDotN(a, c, f) < 0)
            for (UINT k = 0; k < 3; k++) for (UINT g = 0; g < g_nGroups; g++) inc[ib(g, k, a, s)] = 1;
    }
}
static V only(const V &b) { V r; for (size_t i = 0; i < b.size(); i++) if (inc[i]) r.push_back(b[i]); return r; }
static CommSides *cs;
static V exchange(const V &psi)
{
    PsiData p; PsiBoundData b;
    paste(psi, p);
    cs->commSides(p, b);
    return only(copy(b));
}
static V local1(const V &q, const V &bound)
{
    PsiData p, s; PsiBoundData b;
    paste(q, s); paste(bound, b);
    Util::sweepLocal(p, s, b);
    return copy(p);
}
static double gmaxv(double x) { double r; MPI_Allreduce(&x, &r, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD); return r; }
static double relchange(const V &a, const V &b)
{
    double s[2] = {0, 0}, t[2];
    for (size_t k = 0; k < a.size(); k++) { s[0] += fabs(a[k] - b[k]); s[1] += fabs(a[k]); }
    MPI_Allreduce(s, t, 2, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    return t[0] / t[1];
}
// two-rank agreement on a comparison: the exchange is collective, so decide together
static V applyPack(const V &x) { PsiBoundData b; vecToPsiBound(x.data(), b); return copy(b); }

static void packing()
{
    UINT n = getPsiBoundSize();
    size_t want = std::count(inc.begin(), inc.end(), 1);
    cases++;
    if (n != want) { fail("the boundary vector has %d entries, %zu values are incoming on partition boundaries", (int)n, want); return; }
    PsiBoundData b, c;
    local([&] { H::fill(b); H::fill(c); });
    V b0 = copy(b), c0 = copy(c), x(n + 2, 1e77);
    psiBoundToVec(x.data() + 1, b);
    if (maxdiff(copy(b), b0) != 0) fail("packing changes the boundary data");
    if (x[0] != 1e77 || x[n + 1] != 1e77) fail("packing writes outside the vector");
    V m(x.begin() + 1, x.begin() + 1 + n), s1 = m, s2 = only(b0);
    std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
    if (s1 != s2) fail("the packed values are not the incoming boundary values, each once");
    vecToPsiBound(x.data() + 1, c);
    V r = copy(c);
    for (size_t i = 0; i < r.size(); i++) if (r[i] != (inc[i] ? b0[i] : c0[i])) { fail("entry %zu (%s) is %g after unpacking, expected %g", i, inc[i] ? "incoming" : "other", r[i], inc[i] ? b0[i] : c0[i]); break; }
}

static void operators()
{
    UINT n = getPsiBoundSize();
    PsiData psi, zero, src; PsiBoundData b; PhiData phi;
    V x(n), y(n, 3.0);
    CommSides com;
    local([&] { H::fill(psi); H::fill(b); H::fill(src); H::fill(phi); for (auto &v : x) v = uni(-1, 1); });
    SchurData d;
    d.commSides = &com; d.psi = &psi; d.psiBound = &b; d.source = &zero; d.psiBoundSize = n;
    V x0 = x;
    record = false;
    Schur(x.data(), y.data(), &d);
    cases++;
    if (maxdiff(x, x0) != 0) fail("Schur changes its argument");
    V px = applyPack(x), q0(psi.size(), 0.0);
    V ex = exchange(local1(q0, px)), t(n);
    { PsiBoundData w; PsiBoundData z; V full(z.size(), 0.0); size_t k = 0; for (size_t i = 0; i < full.size(); i++) if (inc[i]) full[i] = ex[k++]; paste(full, w); V o(n); psiBoundToVec(o.data(), w); for (UINT i = 0; i < n; i++) t[i] = x[i] - o[i]; }
    double e = gmaxv(maxdiff(y, t));
    if (!(e < 1e-12)) fail("Schur operator off by %g", e);
    // with scattering: moments appended
    V X(n + phi.size()), Y(X.size(), 5.0);
    local([&] { for (auto &v : X) v = uni(-1, 1); });
    V X0 = X;
    d.source = &src; d.phi = &phi;
    SchurKrylov(X.data(), Y.data(), &d);
    cases++;
    if (maxdiff(X, X0) != 0) fail("SchurKrylov changes its argument");
    V q(psi.size());
    for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++)
        q[((c * g_nAngles + a) * 4 + v) * g_nGroups + g] = g_sigmaS[c] / (4 * M_PI) * X[n + (c * 4 + v) * g_nGroups + g];
    V ps = local1(q, applyPack(V(X.begin(), X.begin() + n)));
    ex = exchange(ps);
    V T(X.size());
    { PsiBoundData w; V full(w.size(), 0.0); size_t k = 0; for (size_t i = 0; i < full.size(); i++) if (inc[i]) full[i] = ex[k++]; paste(full, w); V o(n); psiBoundToVec(o.data(), w); for (UINT i = 0; i < n; i++) T[i] = X[i] - o[i]; }
    for (UINT c = 0; c < g_nCells; c++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++) {
        double s = 0;
        for (UINT a = 0; a < g_nAngles; a++) s += g_quadrature->getWt(a) * ps[((c * g_nAngles + a) * 4 + v) * g_nGroups + g];
        size_t i = n + (c * 4 + v) * g_nGroups + g;
        T[i] = X[i] - s;
    }
    e = gmaxv(maxdiff(Y, T));
    if (!(e < 1e-11)) fail("SchurKrylov operator off by %g", e);
    record = true;
}


static V qsource() { PsiData q; Problem::getSource(q); return copy(q); }

static void solves(int it)
{
    V q = qsource();
    g_useSourceIteration = it & 1;
    evs.clear();
    quiet(true);
    const char *name = it / 2 % 3 == 0 ? "Schur" : it / 2 % 3 == 1 ? "SchurOuter" : "SchurKrylov";
    V psi;
    if (it / 2 % 3 == 0) { SweeperSchur s; s.solve(); psi = copy(s.getPsi()); }
    else if (it / 2 % 3 == 1) { SweeperSchurOuter s; s.solve(); psi = copy(s.getPsi()); }
    else { SweeperSchurKrylov s; s.solve(); psi = copy(s.getPsi()); }
    quiet(false);
    cases++;
    // the last local sweep's boundary data are those its own result sends, its source is external plus scattering of its result
    const Ev *l = NULL;
    for (const Ev &e : evs) if (e.kind == 'L') l = &e;
    if (!l) { fail("%s makes no local sweep", name); return; }
    if (maxdiff(psi, l->out) != 0) fail("%s: the flux is not the last local sweep's", name);
    double e = gmaxv(maxdiff(only(l->bound), exchange(psi)));
    if (!(e < 1e-7)) fail("%s: the boundary data used miss those produced by %g", name, e);
    V t = q;
    for (UINT c = 0; c < g_nCells; c++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++) {
        double s = 0;
        for (UINT a = 0; a < g_nAngles; a++) s += g_quadrature->getWt(a) * psi[((c * g_nAngles + a) * 4 + v) * g_nGroups + g];
        for (UINT a = 0; a < g_nAngles; a++) t[((c * g_nAngles + a) * 4 + v) * g_nGroups + g] += g_sigmaS[c] / (4 * M_PI) * s;
    }
    e = gmaxv(maxdiff(l->source, t));
    if (!(e < 1e-7)) fail("%s: the source of the last local sweep misses external plus scattering by %g", name, e);
    // right-hand sides and inner solves
    bool first = true;
    int solvesN = 0, nO = 0;
    for (const Ev &x : evs) if (x.kind == 'O') nO++;
    for (size_t i = 0; i < evs.size(); i++) {
        const Ev &x = evs[i];
        if (it / 2 % 3 == 1 && x.kind == 'O') {
            bool ends = solvesN == 0 || solvesN == nO - 1;
            if (maxdiff(x.source, ends ? q : V(q.size(), 0.0)) != 0) fail("SchurOuter: inner solve %d of %d has the wrong external source", solvesN, nO);
            solvesN++;
        }
        if (it / 2 % 3 == 0 && x.kind == 'L' && i && first) {}
        if (x.kind == 'L' && first) {
            first = false;
            for (double b : only(x.bound)) if (b != 0) { fail("%s: the right-hand side is not computed with zero boundary data", name); break; }
            if (it / 2 % 3 != 0 && !(maxdiff(x.source, q) < 1e-12)) fail("%s: the right-hand side is not driven by the external source", name);
        }
    }
}

// block-Jacobi drivers
static void jacobiSweep(int it)
{
    SweeperPBJ s;
    PsiData psi, q;
    local([&] { H::fill(psi, 0, 1); H::fill(q, 0, 1); });
    V bound(PsiBoundData().size(), 0.0), alt = only(bound), cur = alt;
    for (int rep = 0; rep < 2; rep++) {
        evs.clear();
        g_ddIterMax = it % 3 == 0 ? 2 + it % 5 : 60;
        g_ddErrMax = it % 4 == 1 ? 0.3 : 1e-9;
        V q0 = copy(q), prev = copy(psi);
        quiet(true);
        s.sweep(psi, q, it & 1);
        quiet(false);
        cases++;
        double err = 1e300;
        for (size_t i = 0; i < evs.size(); i++) {
            if (evs[i].kind != 'L') continue;
            if (maxdiff(evs[i].source, q0) != 0) fail("PBJ: step %zu has another source", i);
            double e = gmaxv(maxdiff(only(evs[i].bound), cur));
            if (rep == 1 && i == 0) { double e2 = gmaxv(maxdiff(only(evs[i].bound), alt)); if (e2 < e) e = e2; }
            if (!(e < 1e-13)) fail("PBJ step %zu: boundary data differ from the previous exchange by %g", i, e);
            if (i > 0 && fabs(err - g_ddErrMax) > 1e-12 && err < g_ddErrMax) fail("PBJ goes on after a relative change of %g, tolerance %g", err, g_ddErrMax);
            err = relchange(evs[i].out, prev);
            prev = evs[i].out;
            alt = only(evs[i].bound);
            cur = exchange(prev);
        }
        if (evs.size() > g_ddIterMax) fail("PBJ makes %zu steps, limit %d", evs.size(), (int)g_ddIterMax);
        if (evs.size() + 1 < g_ddIterMax && !(err < g_ddErrMax + 1e-12)) fail("PBJ stops after %zu steps with relative change %g, tolerance %g", evs.size(), err, g_ddErrMax);
        if (maxdiff(copy(psi), prev) != 0) fail("PBJ: the flux is not the last step's");
    }
}

static void jacobiSI(int it)
{
    SweeperPBJSI s;
    evs.clear();
    g_ddIterMax = it % 3 == 0 ? 2 + it % 5 : 60;
    g_ddErrMax = it % 4 == 1 ? 0.3 : 1e-9;
    quiet(true);
    s.solve();
    quiet(false);
    cases++;
    V q = qsource(), phi(PhiData().size(), 0.0), cur = only(V(PsiBoundData().size(), 0.0));
    double err = 1e300;
    size_t n = 0;
    for (const Ev &x : evs) {
        if (x.kind != 'L') continue;
        V t = q;
        for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++)
            t[((c * g_nAngles + a) * 4 + v) * g_nGroups + g] += g_sigmaS[c] / (4 * M_PI) * phi[(c * 4 + v) * g_nGroups + g];
        double e = gmaxv(maxdiff(x.source, t));
        if (!(e < 1e-11)) fail("PBJSI step %zu: source off by %g", n, e);
        e = gmaxv(maxdiff(only(x.bound), cur));
        if (!(e < 1e-13)) fail("PBJSI step %zu: boundary data differ from the previous exchange by %g", n, e);
        if (n > 0 && err < g_ddErrMax - 1e-12) fail("PBJSI goes on after a relative change of %g, tolerance %g", err, g_ddErrMax);
        V p1(phi.size(), 0.0);
        for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++)
            p1[(c * 4 + v) * g_nGroups + g] += g_quadrature->getWt(a) * x.out[((c * g_nAngles + a) * 4 + v) * g_nGroups + g];
        err = relchange(p1, phi);
        phi = p1;
        cur = exchange(x.out);
        n++;
    }
    if (n > g_ddIterMax) fail("PBJSI makes %zu steps, limit %d", n, (int)g_ddIterMax);
    if (n + 1 < g_ddIterMax && !(err < g_ddErrMax + 1e-12)) fail("PBJSI stops after %zu steps with relative change %g, tolerance %g", n, err, g_ddErrMax);
    if (n && maxdiff(copy(s.getPsi()), evs.back().out) != 0) fail("PBJSI: the flux is not the last step's");
}

static void jacobiOuter(int it)
{
    SweeperPBJOuter s;
    evs.clear();
    g_ddIterMax = it % 3 == 0 ? 2 + it % 5 : 60;
    g_ddErrMax = it % 4 == 1 ? 0.3 : 1e-9;
    g_useSourceIteration = it & 1;
    quiet(true);
    s.solve();
    quiet(false);
    cases++;
    V q = qsource(), prev(PsiData().size(), 0.0), zero = only(V(PsiBoundData().size(), 0.0)), cur = zero;
    double err = 1e300;
    size_t n = 0;
    bool in = false;
    std::vector<Ev> evs2; evs2.swap(evs);
    for (const Ev &x : evs2) {
        if (x.kind == 'O') {
            in = true;
            if (maxdiff(x.source, q) != 0) fail("PBJOuter step %zu: another external source", n);
            if (n > 0 && err < g_ddErrMax - 1e-12) fail("PBJOuter goes on after a relative change of %g, tolerance %g", err, g_ddErrMax);
        } else if (x.kind == 'L') {
            if (!in) fail("PBJOuter sweeps outside an inner solve");
            V b = only(x.bound);
            double e = gmaxv(maxdiff(b, cur)), e0 = gmaxv(maxdiff(b, zero));
            if (!(e < 1e-13 || (!g_useSourceIteration && e0 == 0))) fail("PBJOuter step %zu: boundary data differ from the previous exchange by %g", n, e);
        } else {
            in = false;
            err = relchange(x.out, prev);
            prev = x.out;
            V full(PsiBoundData().size(), 0.0), t = q;
            for (size_t i = 0, k = 0; i < full.size(); i++) if (inc[i]) full[i] = cur[k++];
            for (UINT c = 0; c < g_nCells; c++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++) {
                double m = 0;
                for (UINT a = 0; a < g_nAngles; a++) m += g_quadrature->getWt(a) * prev[((c * g_nAngles + a) * 4 + v) * g_nGroups + g];
                for (UINT a = 0; a < g_nAngles; a++) t[((c * g_nAngles + a) * 4 + v) * g_nGroups + g] += g_sigmaS[c] / (4 * M_PI) * m;
            }
            double e = gmaxv(maxdiff(local1(t, full), prev));
            if (!(e < 1e-8)) fail("PBJOuter step %zu: the flux misses the solution for the previous exchange's boundary data by %g", n, e);
            cur = exchange(prev);
            n++;
        }
    }
    if (n > g_ddIterMax) fail("PBJOuter makes %zu steps, limit %d", n, (int)g_ddIterMax);
    if (n + 1 < g_ddIterMax && !(err < g_ddErrMax + 1e-12)) fail("PBJOuter stops after %zu steps with relative change %g, tolerance %g", n, err, g_ddErrMax);
    if (maxdiff(copy(s.getPsi()), prev) != 0) fail("PBJOuter: the flux is not the last step's");
}

int main(int argc, char **argv)
{
    init(argc, argv);
    int N = thorough ? 36 : 12;
    for (int it = 0; it < N; it++) {
        double L = uni(15, 45);
        Tets m = box(1 + rnd(2), 1 + rnd(2), 1, L);
        if (m.t.size() < (size_t)size_) continue;
        // around the centre of the problem, where its source is not zero
        for (auto &p : m.x) for (int k = 0; k < 3; k++) p[k] += 50 - L / 2;
        // cross sections chosen so that the iterations converge well inside the limits
        setup(m, partition(m, size_), size_, 2, 1 + rnd(2), 1 + rnd(2), 2.0, .4, 3.0, .6);
        g_graphTraverserForward = new GraphTraverser(Direction_Forward, false, SweepData::getDataSizeInBytes());
        incoming();
        cs = new CommSides;
        packing();
        operators();
        solves(it);
        g_errMax = 1e-12; g_iterMax = 100;
        jacobiSweep(it); jacobiSI(it); jacobiOuter(it);
        delete g_graphTraverserForward;
        delete cs;
    }
    sample("%d cases", (int)cases);
    return finish();
}
