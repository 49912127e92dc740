// P16: input decks: generated well-formed and malformed files against an independent reading; readInput of Main.cc included
#include "h.hh"
#include <fstream>
#include <sys/wait.h>
#define main sweep_main
#include "Main.cc"
#undef main
#include "KeyValueReader.hh"
using namespace H;
typedef CKG_Utils::KeyValueReader R;
typedef std::vector<std::pair<std::string,std::string>> KV;

static const std::string TOK = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-_.";
static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::string token(int max) { std::string s; int n = 1 + rnd(max); for (int i = 0; i < n; i++) s += TOK[rnd(TOK.size())]; return s; }
static std::string recase(std::string s) { for (auto &c : s) { if (rnd(2) && c >= 'a' && c <= 'z') c -= 32; else if (rnd(2) && c >= 'A' && c <= 'Z') c += 32; } return s; }
static std::string ws(int min) { std::string s; int n = min + rnd(3); for (int i = 0; i < n; i++) s += rnd(2) ? ' ' : '\t'; return s; }
static std::string comment() { if (rnd(2)) return ""; std::string s = "#"; int n = rnd(12); for (int i = 0; i < n; i++) s += (char)(32 + rnd(95)); return s; }

static void write(const std::string &f, const std::string &text) { std::ofstream o(f, std::ios::binary); o << text; }

struct Quiet { int so; Quiet() { fflush(stdout); so = dup(1); if (!freopen("/dev/null", "w", stdout)) abort(); } ~Quiet() { fflush(stdout); dup2(so, 1); close(so); } };
template <class F> static int thrown(F f) { Quiet q; try { f(); } catch (R::Exception e) { return (int)e; } catch (...) { return 100; } return -1; }

// what a value means, by the same standard as a person reading the deck: an optional sign and digits; a decimal number
static bool isInt(const std::string &s, long &v)
{
    size_t i = (s[0] == '+' || s[0] == '-') ? 1 : 0;
    if (i == s.size()) return false;
    for (size_t k = i; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false;
    if (s.size() - i > 18) return false;
    v = atol(s.c_str());
    return v >= INT32_MIN && v <= INT32_MAX;
}
static bool isReal(const std::string &s)      // digits [. digits] [e [sign] digits]
{
    size_t i = (s[0] == '+' || s[0] == '-') ? 1 : 0, d = 0;
    while (i < s.size() && isdigit(s[i])) i++, d++;
    if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit(s[i])) i++, d++; }
    if (!d) return false;
    if (i == s.size()) return true;
    if (s[i] != 'e' && s[i] != 'E') return false;
    i++;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    if (i == s.size()) return false;
    while (i < s.size() && isdigit(s[i])) i++;
    return i == s.size();
}
static std::string number()
{
    std::string s;
    switch (rnd(9)) {
        case 0: s = std::to_string((int)rnd(100)); break;
        case 1: s = (rnd(2) ? "-" : "+") + std::to_string((int)rnd(100000)); break;
        case 2: s = std::to_string(uni(-10, 10)); break;
        case 3: s = std::to_string((int)rnd(10)) + "e-" + std::to_string((int)rnd(8)); break;
        case 4: s = "." + std::to_string((int)rnd(1000)); break;
        case 5: s = std::to_string((int)rnd(1000)) + "."; break;
        case 6: s = "99999999999"; break;
        case 7: s = std::to_string((int)rnd(50)) + token(3); break;       // may or may not be a number
        default: s = token(6);
    }
    return s;
}

static void reader(int it)
{
    std::string fn = tmpfile("deck.txt"), text;
    KV kv;
    int n = rnd(8);
    for (int i = 0; i < n; i++) {
        while (rnd(3) == 0) text += ws(0) + comment() + "\n";
        std::string k, v;
        for (;;) { k = token(7); bool dup = false; for (auto &p : kv) dup = dup || lower(p.first) == lower(k); if (!dup) break; }
        int kind = rnd(4);
        v = kind == 0 ? token(8) : kind == 1 ? recase(rnd(2) ? "true" : "false") : number();
        kv.push_back(std::make_pair(k, v));
        text += ws(0) + k + ws(1) + v + ws(0) + comment();
        if (i + 1 < n || rnd(2)) text += "\n";
    }
    int bad = it % 3 == 0 ? 1 + (int)rnd(6) : 0;
    if (bad) {
        if (text.size() && text.back() != '\n') text += "\n";
        std::string l;
        switch (bad) {
            case 1: l = token(5); break;                                        // key without value
            case 2: l = token(3) + " " + token(3) + " " + token(3); break;      // three words
            case 3: l = std::string("=!,;:/@\"'")[rnd(9)] + token(3) + " " + token(2); break;
            case 4: l = token(3) + " " + token(2) + "!,;:/@=("[rnd(8)] + token(2); break;
            case 5: if (kv.size()) l = recase(kv[rnd(kv.size())].first) + " " + token(3); else l = "x"; break;      // duplicate
            default: l = token(3) + "=" + token(3);
        }
        // somewhere in the file
        std::vector<size_t> starts(1, 0);
        for (size_t i = 0; i < text.size(); i++) if (text[i] == '\n') starts.push_back(i + 1);
        size_t at = bad == 5 ? text.size() : starts[rnd(starts.size())];
        text.insert(at, ws(0) + l + "\n");
    }
    write(fn, text);
    cases++;
    R r;
    std::string sv = "old"; int iv = 5; double dv = 5; bool bv = true; float fv = 5;
    if (rnd(4) == 0) {
        if (thrown([&] { r.getString("x", sv); }) != R::ExceptionFileNotRead || thrown([&] { r.getInt("x", iv); }) != R::ExceptionFileNotRead) fail("reading a key before the file is not refused");
        if (thrown([&] { r.readFile(tmpfile("does-not-exist")); }) != R::ExceptionOpenFileError) fail("a missing file is not reported");
    }
    int e = thrown([&] { r.readFile(fn); });
    if (bad && e != R::ExceptionParseFileError) { fail("malformed deck accepted (kind %d, result %d): %s", bad, e, text.c_str()); return; }
    if (bad) return;
    if (e != -1) { fail("well-formed deck refused (%d): %s", e, text.c_str()); return; }
    if (thrown([&] { r.readFile(fn); }) != R::ExceptionAlreadyReadAFile) fail("a second readFile is accepted");
    for (auto &p : kv) {
        std::string k = recase(p.first);
        sv = "old";
        int es = thrown([&] { r.getString(k, sv); });
        if (es != -1 || sv != p.second) fail("key %s gives '%s' instead of '%s' (%d): %s", k.c_str(), sv.c_str(), p.second.c_str(), es, text.c_str());
        long want;
        iv = 5;
        int ei = thrown([&] { r.getInt(k, iv); });
        if (isInt(p.second, want)) { if (ei != -1 || iv != want) fail("'%s' read as integer %d (%d)", p.second.c_str(), iv, ei); }
        else if (ei != R::ExceptionStringConversionError || iv != 0) fail("'%s' accepted as the integer %d (%d)", p.second.c_str(), iv, ei);
        dv = 5;
        int ed = thrown([&] { r.getDouble(k, dv); });
        fv = 5;
        int ef = thrown([&] { r.getFloat(k, fv); });
        std::string lv = lower(p.second), body = (lv[0] == '+' || lv[0] == '-') ? lv.substr(1) : lv;
        bool special = body.compare(0, 2, "0x") == 0 || body.compare(0, 3, "inf") == 0 || body.compare(0, 3, "nan") == 0;
        double w = atof(p.second.c_str());
        bool tiny = w != 0 && (fabs(w) < 1e-300 || fabs(w) > 1e300), ftiny = w != 0 && (fabs(w) < 1e-37 || fabs(w) > 1e38);
        if (isReal(p.second)) {
            if (!tiny && (ed != -1 || dv != w)) fail("'%s' read as %.17g (%d)", p.second.c_str(), dv, ed);
            if (!ftiny && !tiny && (ef != -1 || fabs(fv - w) > 1e-6 * fabs(w))) fail("'%s' read as the float %g (%d)", p.second.c_str(), fv, ef);
        } else if (!special) {
            if (ed != R::ExceptionStringConversionError || dv != 0) fail("'%s' accepted as the number %g (%d)", p.second.c_str(), dv, ed);
            if (ef != R::ExceptionStringConversionError || fv != 0) fail("'%s' accepted as the float %g (%d)", p.second.c_str(), fv, ef);
        }
        bv = rnd(2);
        int eb = thrown([&] { r.getBool(k, bv); });
        if (lv == "true" || lv == "false") { if (eb != -1 || bv != (lv == "true")) fail("'%s' read as the boolean %d (%d)", p.second.c_str(), bv, eb); }
        else if (eb != R::ExceptionStringConversionError || bv) fail("'%s' accepted as a boolean (%d)", p.second.c_str(), eb);
    }
    std::string no = token(7) + "_absent_";
    if (thrown([&] { r.getString(no, sv); }) != R::ExceptionKeyNotFound || thrown([&] { r.getInt(no, iv); }) != R::ExceptionKeyNotFound || thrown([&] { r.getBool(no, bv); }) != R::ExceptionKeyNotFound || thrown([&] { r.getDouble(no, dv); }) != R::ExceptionKeyNotFound) fail("missing key not reported");
    if (kv.size()) { std::string part = kv[0].first.substr(0, kv[0].first.size() - 1), longer = kv[0].first + "x"; bool a = false, b = false; for (auto &p : kv) { a = a || lower(p.first) == lower(part); b = b || lower(p.first) == lower(longer); }
        if (!a && thrown([&] { r.getString(part, sv); }) != R::ExceptionKeyNotFound) fail("beginning of a key accepted");
        if (!b && thrown([&] { r.getString(longer, sv); }) != R::ExceptionKeyNotFound) fail("extension of a key accepted"); }
    r.reset();
    if (thrown([&] { r.getString("x", sv); }) != R::ExceptionFileNotRead) fail("reset does not forget the file");
    write(fn, "a 1\n");
    if (thrown([&] { r.readFile(fn); }) != -1 || thrown([&] { r.getInt("A", iv); }) != -1 || iv != 1) fail("reading again after reset");
    for (auto &p : kv) if (lower(p.first) != "a" && thrown([&] { r.getString(p.first, sv); }) != R::ExceptionKeyNotFound) fail("keys survive a reset");
}

static void parameters()
{
    cases++;
    int v[9]; double d[6]; bool b[2];
    for (auto &x : v) x = 1 + rnd(100000);
    for (auto &x : d) x = uni(0, 100);
    for (auto &x : b) x = rnd(2);
    const char *mpi[] = {"TychoTwoSided", "CapsaicinTwoSided"};
    const char *sweep[] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "Schur", "SchurOuter", "PBJSI", "SchurKrylov"};
    int sweepv[] = {SweepType_OriginalTycho1, SweepType_OriginalTycho2, SweepType_TraverseGraph, SweepType_PBJ, SweepType_PBJOuter, SweepType_Schur, SweepType_SchurOuter, SweepType_PBJSI, SweepType_SchurKrylov};
    const char *ge[] = {"Original", "NoPivot", "CramerGlu", "CramerIntel"};
    int gev[] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel};
    int mi = rnd(2), si = rnd(9), gi = rnd(4);
    std::string out = "file_" + std::to_string((int)rnd(1000)) + ".psi";
    char buf[100];
    auto num = [&](double x) { snprintf(buf, sizeof buf, "%.17g", x); return std::string(buf); };
    KV kv = {{"snOrder", std::to_string(v[0])}, {"iterMax", std::to_string(v[1])}, {"errMax", num(d[0])}, {"maxCellsPerStep", std::to_string(v[2])},
             {"intraAngleP", std::to_string(v[3])}, {"interAngleP", std::to_string(v[4])}, {"nGroups", std::to_string(v[5])}, {"sigmaT1", num(d[1])}, {"sigmaS1", num(d[2])},
             {"sigmaT2", num(d[3])}, {"sigmaS2", num(d[4])}, {"OutputFile", b[0] ? "true" : "false"}, {"OutputFilename", out}, {"DD_IterMax", std::to_string(v[6])},
             {"DD_ErrMax", num(d[5])}, {"SourceIteration", b[1] ? "true" : "false"}, {"MPIType", mpi[mi]}, {"SweepType", sweep[si]}, {"GaussElim", ge[gi]}};
    shuffle(kv);
    int wrong = rnd(3) ? -1 : (int)rnd(3), miss = rnd(4) ? -1 : (int)rnd(kv.size());
    const char *names[] = {"MPIType", "SweepType", "GaussElim"};
    std::string text;
    for (size_t i = 0; i < kv.size(); i++) {
        if ((int)i == miss) continue;
        std::string val = kv[i].second;
        if (wrong >= 0 && kv[i].first == names[wrong]) switch (rnd(3)) { case 0: val += "x"; break; case 1: val = token(8); break; default: val = val.substr(0, val.size() - 1); }
        bool still = false;
        for (auto x : mpi) still = still || val == x;
        for (auto x : sweep) still = still || val == x;
        for (auto x : ge) still = still || val == x;
        if (wrong >= 0 && kv[i].first == names[wrong] && still) wrong = -1;
        text += recase(kv[i].first) + ws(1) + val + "\n";
    }
    write(tmpfile("deck2.txt"), text);
    if (wrong >= 0 || miss >= 0) {
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            signal(SIGABRT, SIG_DFL);
            if (!freopen("/dev/null", "w", stdout)) _exit(7);
            if (!freopen("/dev/null", "w", stderr)) _exit(7);
            double s[4];
            try { readInput(tmpfile("deck2.txt"), s[0], s[1], s[2], s[3]); } catch (...) { _exit(3); }
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) fail("deck with a %s accepted: %s", miss >= 0 ? "missing key" : "unknown method name", text.c_str());
        return;
    }
    g_snOrder = g_iterMax = g_maxCellsPerStep = g_intraAngleP = g_interAngleP = g_nGroups = g_ddIterMax = 12345678;
    g_errMax = g_ddErrMax = -1; g_outputFile = !b[0]; g_useSourceIteration = !b[1]; g_outputFilename = "?";
    double s[4] = {-1, -1, -1, -1};
    int e = thrown([&] { readInput(tmpfile("deck2.txt"), s[0], s[1], s[2], s[3]); });
    if (e != -1) { fail("complete deck refused (%d)", e); return; }
    UINT got[] = {g_snOrder, g_iterMax, g_maxCellsPerStep, g_intraAngleP, g_interAngleP, g_nGroups, g_ddIterMax};
    const char *gn[] = {"snOrder", "iterMax", "maxCellsPerStep", "intraAngleP", "interAngleP", "nGroups", "DD_IterMax"};
    for (int i = 0; i < 7; i++) if (got[i] != (UINT)v[i]) fail("%s is %ld instead of %d", gn[i], (long)got[i], v[i]);
    double gd[] = {g_errMax, s[0], s[1], s[2], s[3], g_ddErrMax};
    const char *dn[] = {"errMax", "sigmaT1", "sigmaS1", "sigmaT2", "sigmaS2", "DD_ErrMax"};
    for (int i = 0; i < 6; i++) if (gd[i] != d[i]) fail("%s is %.17g instead of %.17g", dn[i], gd[i], d[i]);
    if (g_outputFile != b[0] || g_useSourceIteration != b[1] || g_outputFilename != out) fail("OutputFile/SourceIteration/OutputFilename");
    if ((int)g_mpiType != (mi ? MPIType_CapsaicinTwoSided : MPIType_TychoTwoSided)) fail("MPIType %s gives %d", mpi[mi], (int)g_mpiType);
    if ((int)g_sweepType != sweepv[si]) fail("SweepType %s gives %d", sweep[si], (int)g_sweepType);
    if ((int)g_gaussElim != gev[gi]) fail("GaussElim %s gives %d", ge[gi], (int)g_gaussElim);
}

int main(int argc, char **argv)
{
    init(argc, argv);
    for (int it = 0; it < (thorough ? 6000 : 900); it++) reader(it);
    for (int it = 0; it < (thorough ? 1500 : 250); it++) parameters();
    sample("%d decks", (int)cases);
    return finish();
}
