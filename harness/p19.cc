// P19: the written angular flux file, byte by byte
#include "h.hh"
#include "SweeperAbstract.hh"
#include <fstream>
#include <iterator>
using namespace H;

struct Holder : SweeperAbstract { void sweep(PsiData &, const PsiData &, bool) {} void solve() {} };
static std::string slurp(const std::string &f) { std::ifstream s(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>()); }
static double val(UINT seed, UINT gc, UINT a, UINT v, UINT g) { return (double)((gc * 131 + a) * 4 + v) * 8 + g + seed * 0.125; }

int main(int argc, char **argv)
{
    init(argc, argv);
    std::string fn = tmpfile("psi.bin");
    for (int it = 0; it < (thorough ? 40 : 10); it++) {
        Tets m = box(1 + rnd(2), 1 + rnd(2), 1 + rnd(2));
        SerialMesh s = serial(m);
        if (m.t.size() < (size_t)size_) continue;
        setup(m, partition(m, size_), size_, 2 * (1 + rnd(3)), 1 + rnd(4), 1 + rnd(2), 1.5, .7, 3, 1.1, &s);
        // global cell of each local one, by position
        std::map<std::array<double,12>, UINT> pos;
        auto key = [](std::vector<std::array<double,3>> p) { std::sort(p.begin(), p.end()); std::array<double,12> k; for (int i = 0; i < 12; i++) k[i] = p[i / 3][i % 3]; return k; };
        for (UINT c = 0; c < s.c_numCells; c++) {
            std::vector<std::array<double,3>> p;
            for (int v = 0; v < 4; v++) { auto &n = s.c_nodeData[s.c_cellData[c].boundingNodes[v]]; p.push_back({{n.coords[0], n.coords[1], n.coords[2]}}); }
            pos[key(p)] = c;
        }
        Holder h;
        PsiData &psi = h.getPsi();
        for (UINT c = 0; c < g_nCells; c++) {
            std::vector<std::array<double,3>> p;
            for (int v = 0; v < 4; v++) p.push_back(nodePos(g_tychoMesh->getCellNode(c, v)));
            auto f = pos.find(key(p));
            if (f == pos.end()) { fail("local cell %d is not in the mesh", (int)c); continue; }
            for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++) psi(g, v, a, c) = val(it, f->second, a, v, g);
        }
        // an earlier, longer file of the same name
        if (it % 3 == 0) { if (rank_ == 0) { std::ofstream o(fn, std::ios::binary); o << std::string(200 + m.t.size() * g_nAngles * 4 * g_nGroups * 8 + 64, 'z'); } MPI_Barrier(MPI_COMM_WORLD); }
        h.writePsiToFile(fn);
        MPI_Barrier(MPI_COMM_WORLD);
        if (rank_ == 0) {
            std::string d = slurp(fn);
            size_t N = s.c_numCells * g_nAngles * 4 * g_nGroups;
            char name[32] = "Tycho 2 Psi Output";
            uint64_t hd[4] = {1, s.c_numCells, g_nAngles, g_nGroups};
            cases++;
            if (d.size() != 64 + 8 * N) fail("the file has %zu bytes, expected %zu", d.size(), 64 + 8 * N);
            else if (memcmp(d.data(), name, 32)) fail("format name");
            else if (memcmp(d.data() + 32, hd, 32)) fail("header numbers");
            else for (UINT c = 0, i = 0; c < s.c_numCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < 4; v++) for (UINT g = 0; g < g_nGroups; g++, i++) {
                double x;
                memcpy(&x, d.data() + 64 + 8 * i, 8);
                if (x != val(it, c, a, v, g)) { fail("cell %d direction %d vertex %d group %d: %g in the file, expected %g", (int)c, (int)a, (int)v, (int)g, x, val(it, c, a, v, g)); c = s.c_numCells - 1; a = g_nAngles - 1; v = 3; break; }
            }
            if (it % 2) unlink(fn.c_str());
        }
        MPI_Barrier(MPI_COMM_WORLD);
    }
    sample("%d files", (int)cases);
    return finish();
}
