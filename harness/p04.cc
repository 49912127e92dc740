// Storage: every index tuple has its own element inside the allocation, writes are read back, fills are complete.
#include "h.hh"
using namespace H;

static double val(size_t k) { return 1.5 + (double)k; }

template <class M, class T> static void cover(M &m, const std::vector<size_t> &d, const char *what, std::function<T*(const std::vector<size_t>&)> at,
                                              std::function<const T*(const std::vector<size_t>&)> cat)
{
    size_t n = 1;
    for (auto x : d) n *= x;
    cases++;
    std::string dims;
    for (auto x : d) dims += std::to_string(x) + " ";
    if (m.size() != n) { fail("%s (%s): size() is %zu, want %zu", what, dims.c_str(), (size_t)m.size(), n); return; }
    std::vector<std::vector<size_t>> tup;
    std::vector<size_t> i(d.size(), 0);
    for (size_t k = 0; k < n; k++) {
        tup.push_back(i);
        for (size_t j = 0; j < d.size(); j++) { if (++i[j] < d[j]) break; i[j] = 0; }
    }
    if (!n) return;
    std::set<T*> seen;
    for (size_t k = 0; k < n; k++) {
        T *p = at(tup[k]);
        if (p != cat(tup[k])) { fail("%s (%s): const and non-const access differ", what, dims.c_str()); return; }
        if (!seen.insert(p).second) { fail("%s (%s): two tuples share element, tuple %zu %zu", what, dims.c_str(), tup[k][0], tup[k][tup[k].size() - 1]); return; }
    }
    if ((size_t)(*seen.rbegin() - *seen.begin()) + 1 != n) { fail("%s (%s): elements are not the allocation: span %ld", what, dims.c_str(), (long)(*seen.rbegin() - *seen.begin()) + 1); return; }
    // linear access covers the same allocation
    for (size_t k = 0; k < n; k++)
        if (&m[k] != *seen.begin() + k || &((const M&)m)[k] != &m[k]) { fail("%s (%s): operator[] %zu is not element %zu", what, dims.c_str(), k, k); return; }
    // write once in random order, read all back
    std::vector<size_t> o(n);
    for (size_t k = 0; k < n; k++) o[k] = k;
    shuffle(o);
    for (auto k : o) *at(tup[k]) = (T)val(k);
    for (size_t k = 0; k < n; k++) if (*cat(tup[k]) != (T)val(k)) { fail("%s (%s): value written through one tuple changed", what, dims.c_str()); return; }
}
#define AT1 [&](const std::vector<size_t> &i) { return &m(i[0]); }
#define AT2 [&](const std::vector<size_t> &i) { return &m(i[0], i[1]); }
#define AT3 [&](const std::vector<size_t> &i) { return &m(i[0], i[1], i[2]); }
#define AT4 [&](const std::vector<size_t> &i) { return &m(i[0], i[1], i[2], i[3]); }
template <class M> static bool zero(const M &m) { for (size_t i = 0; i < m.size(); i++) if (m[i] != 0) return false; return true; }

template <class T> static void mats()
{
    for (int t = 0; t < 60; t++) {
        size_t a = 1 + rnd(9), b = 1 + rnd(9), c = 1 + rnd(9), a2 = 1 + rnd(9), b2 = 1 + rnd(9), c2 = 1 + rnd(9);
        {
            Mat1<T> m(a); const Mat1<T> &cm = m;
            if (!zero(m)) fail("Mat1(%zu) not zero", a);
            cover<Mat1<T>, T>(m, {a}, "Mat1", AT1, [&](const std::vector<size_t> &i) { return &cm(i[0]); });
            m.resize(a2);
            if (!zero(m) || m.size() != a2) fail("Mat1 resize %zu -> %zu: not zero or wrong size", a, a2);
            cover<Mat1<T>, T>(m, {a2}, "Mat1 resized", AT1, [&](const std::vector<size_t> &i) { return &cm(i[0]); });
            Mat1<T> e; if (e.size() != 0) fail("Mat1() not empty");
            e.resize(a); if (!zero(e) || e.size() != a) fail("Mat1() resized");
        }
        {
            Mat2<T> m(a, b); const Mat2<T> &cm = m;
            if (!zero(m)) fail("Mat2(%zu,%zu) not zero", a, b);
            cover<Mat2<T>, T>(m, {a, b}, "Mat2", AT2, [&](const std::vector<size_t> &i) { return &cm(i[0], i[1]); });
            m.setAll((T)7);
            for (size_t i = 0; i < m.size(); i++) if (m[i] != (T)7) { fail("Mat2(%zu,%zu)::setAll misses element %zu", a, b, i); break; }
            std::vector<T> d;
            for (size_t i = 0; i < a * b; i++) d.push_back((T)val(i));
            m.setData(d.data());
            for (size_t i = 0; i < m.size(); i++) if (m[i] != d[i]) { fail("Mat2(%zu,%zu)::setData element %zu", a, b, i); break; }
            m.resize(a2, b2);
            if (!zero(m) || m.size() != a2 * b2) fail("Mat2 resize: not zero or wrong size");
            cover<Mat2<T>, T>(m, {a2, b2}, "Mat2 resized", AT2, [&](const std::vector<size_t> &i) { return &cm(i[0], i[1]); });
            Mat2<T> e; if (e.size() != 0) fail("Mat2() not empty");
            e.resize(a, b); if (!zero(e) || e.size() != a * b) fail("Mat2() resized");
        }
        {
            Mat3<T> m(a, b, c); const Mat3<T> &cm = m;
            if (!zero(m)) fail("Mat3(%zu,%zu,%zu) not zero", a, b, c);
            cover<Mat3<T>, T>(m, {a, b, c}, "Mat3", AT3, [&](const std::vector<size_t> &i) { return &cm(i[0], i[1], i[2]); });
            m.resize(a2, b2, c2);
            if (!zero(m) || m.size() != a2 * b2 * c2) fail("Mat3 resize: not zero or wrong size");
            cover<Mat3<T>, T>(m, {a2, b2, c2}, "Mat3 resized", AT3, [&](const std::vector<size_t> &i) { return &cm(i[0], i[1], i[2]); });
            Mat3<T> e; if (e.size() != 0) fail("Mat3() not empty");
            e.resize(a, b, c); if (!zero(e) || e.size() != a * b * c) fail("Mat3() resized");
        }
    }
}

template <class P> static void phaseFill(P &p, const char *what)
{
    p.setToValue(2.25);
    for (size_t i = 0; i < p.size(); i++) if (p[i] != 2.25) { fail("%s::setToValue misses element %zu of %zu", what, i, (size_t)p.size()); break; }
}
// a view must keep off the caller's neighbouring storage and leave its ownership alone
template <class P> static void view(const char *what)
{
    size_t n; { P p; n = p.size(); }
    std::vector<double> buf(n + 64, -9.0);
    {
        P v(buf.data() + 32);
        if (v.size() != n) fail("%s(data): size %zu, want %zu", what, (size_t)v.size(), n);
        for (size_t i = 0; i < n; i++) if (v[i] != -9.0) { fail("%s(data) changed the caller's data", what); break; }
        v.setToValue(4.5);
        for (size_t i = 0; i < n; i++) if (&v[i] != &buf[32 + i] || buf[32 + i] != 4.5) { fail("%s(data): element %zu not in the caller's storage", what, i); break; }
    }
    for (size_t i = 0; i < 32; i++) if (buf[i] != -9.0 || buf[32 + n + i] != -9.0) { fail("%s(data): wrote outside the storage", what); break; }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    mats<double>();
    mats<UINT>();
    for (int t = 0; t < (thorough ? 12 : 5); t++) {
        UINT sn = 2 + 2 * rnd(2), ng = 1 + rnd(5);
        Tets m = box(1 + rnd(2), 1 + rnd(2), 1);
        setup(m, partition(m, 1), 1, sn, ng, 1);
        UINT na = g_nAngles, nc = g_nCells, ns = g_tychoMesh->getNSides();
        sample("phase space %lu groups %lu angles %lu cells %lu sides", ng, na, nc, ns);
        {
            PsiData m; const PsiData &cm = m;
            if (!zero(m)) fail("PsiData not zero");
            cover<PsiData, double>(m, {ng, 4, na, nc}, "PsiData", AT4, [&](const std::vector<size_t> &i) { return &cm(i[0], i[1], i[2], i[3]); });
            phaseFill(m, "PsiData"); view<PsiData>("PsiData");
        }
        {
            PsiBoundData m; const PsiBoundData &cm = m;
            if (!zero(m)) fail("PsiBoundData not zero");
            cover<PsiBoundData, double>(m, {ng, 3, na, ns}, "PsiBoundData", AT4, [&](const std::vector<size_t> &i) { return &cm(i[0], i[1], i[2], i[3]); });
            phaseFill(m, "PsiBoundData");
        }
        {
            PhiData m; const PhiData &cm = m;
            if (!zero(m)) fail("PhiData not zero");
            cover<PhiData, double>(m, {ng, 4, nc}, "PhiData", AT3, [&](const std::vector<size_t> &i) { return &cm(i[0], i[1], i[2]); });
            phaseFill(m, "PhiData"); view<PhiData>("PhiData");
        }
    }
    return finish();
}
