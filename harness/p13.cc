// P13: connectivity tables of the loaded mesh, against the serial mesh it came from and across ranks
#include "h.hh"
using namespace H;

static void scramble(ParallelMesh &pm)
{
    for (auto &p : pm.c_partitionData) {
        std::vector<uint64_t> c(p.numCells), f(p.numFaces), n(p.numNodes);
        for (size_t i = 0; i < c.size(); i++) c[i] = i;
        for (size_t i = 0; i < f.size(); i++) f[i] = i;
        for (size_t i = 0; i < n.size(); i++) n[i] = i;
        shuffle(c); shuffle(f); shuffle(n);
        auto cd = p.cellData; auto fd = p.faceData; auto nd = p.nodeData;
        for (size_t i = 0; i < c.size(); i++) {
            auto d = cd[i];
            for (auto &x : d.boundingFaces) x = f[x];
            for (auto &x : d.boundingNodes) x = n[x];
            for (int k = 4; k > 1; k--) std::swap(d.boundingFaces[k - 1], d.boundingFaces[rnd(k)]);
            for (int k = 4; k > 1; k--) std::swap(d.boundingNodes[k - 1], d.boundingNodes[rnd(k)]);
            p.cellData[c[i]] = d;
        }
        for (size_t i = 0; i < f.size(); i++) {
            auto d = fd[i];
            if (d.boundaryType == ParallelMesh::NotBoundary) { for (auto &x : d.boundingCells) x = c[x]; if (rnd(2)) std::swap(d.boundingCells[0], d.boundingCells[1]); }
            else for (auto &x : d.boundingCells) if (x != ParallelMesh::INVALID_INDEX) x = c[x];
            for (auto &x : d.boundingNodes) x = n[x];
            for (int k = 3; k > 1; k--) std::swap(d.boundingNodes[k - 1], d.boundingNodes[rnd(k)]);
            p.faceData[f[i]] = d;
        }
        for (size_t i = 0; i < n.size(); i++) p.nodeData[n[i]] = nd[i];
    }
}

// geometric order of the face vertices: lexicographic in the coordinates
static void checkRank(const SerialMesh &sm, const std::vector<uint64_t> &part)
{
    const TychoMesh &M = *g_tychoMesh;
    UINT nMine = 0;
    for (auto p : part) nMine += p == (uint64_t)rank_;
    if (g_nCells != nMine) { fail("number of cells %d instead of %d", (int)g_nCells, (int)nMine); return; }
    std::map<std::array<double,3>, uint64_t> nodeId;
    for (size_t i = 0; i < sm.c_nodeData.size(); i++) nodeId[{{sm.c_nodeData[i].coords[0], sm.c_nodeData[i].coords[1], sm.c_nodeData[i].coords[2]}}] = i;
    std::set<UINT> used, gcells;
    UINT nSides = 0;
    for (UINT c = 0; c < g_nCells; c++) {
        UINT gc = M.getLGCell(c);
        if (gc >= part.size() || part[gc] != (uint64_t)rank_ || !gcells.insert(gc).second) { fail("global number %ld of cell %d", (long)gc, (int)c); return; }
        if (M.getCellMaterial(c) != sm.c_cellData[gc].materialIndex) fail("material of cell %d", (int)c);
        std::set<uint64_t> nodes, want(sm.c_cellData[gc].boundingNodes, sm.c_cellData[gc].boundingNodes + 4);
        uint64_t gn[4];
        for (UINT v = 0; v < 4; v++) {
            if (M.getCellNode(c, v) >= M.getNNodes()) { fail("node number out of range"); return; }
            gn[v] = nodeId.at(nodePos(M.getCellNode(c, v)));
            nodes.insert(gn[v]);
        }
        if (nodes != want) fail("nodes of cell %d (global %d) are not those of the serial mesh", (int)c, (int)gc);
        for (UINT f = 0; f < 4; f++) {
            cases++;
            // face-vertex maps
            std::set<UINT> cv;
            std::array<double,3> prev;
            for (UINT fv = 0; fv < 3; fv++) {
                UINT v = M.getFaceToCellVrtx(c, f, fv);
                if (v > 3 || v == f || !cv.insert(v).second) { fail("face %d of cell %d: face vertex %d is cell vertex %d", (int)f, (int)c, (int)fv, (int)v); return; }
                if (M.getCellToFaceVrtx(c, f, v) != fv) fail("cell %d face %d: cell vertex %d maps to face vertex %d, not %d", (int)c, (int)f, (int)v, (int)M.getCellToFaceVrtx(c, f, v), (int)fv);
                std::array<double,3> x = nodePos(M.getCellNode(c, v));
                prev = x;
            }
            // the serial face opposite vertex f
            std::set<uint64_t> fn;
            for (UINT v = 0; v < 4; v++) if (v != f) fn.insert(gn[v]);
            uint64_t gf = (uint64_t)-1;
            for (auto x : sm.c_cellData[gc].boundingFaces) if (std::set<uint64_t>(sm.c_faceData[x].boundingNodes, sm.c_faceData[x].boundingNodes + 3) == fn) gf = x;
            if (gf == (uint64_t)-1) { fail("no serial face"); return; }
            auto &F = sm.c_faceData[gf];
            uint64_t other = F.boundingCells[0] == gc ? F.boundingCells[1] : F.boundingCells[0];
            UINT wantRank = other == SerialMesh::INVALID_INDEX ? TychoMesh::BAD_RANK : part[other];
            if (M.getAdjRank(c, f) != wantRank) fail("cell %d face %d: adjacent rank %ld instead of %ld", (int)c, (int)f, (long)M.getAdjRank(c, f), (long)wantRank);
            UINT ac = M.getAdjCell(c, f), af = M.getAdjFace(c, f);
            if (wantRank == (UINT)rank_) {
                if (ac >= g_nCells || M.getLGCell(ac) != other) { fail("cell %d face %d: adjacent cell %ld is not global cell %ld", (int)c, (int)f, (long)ac, (long)other); return; }
                if (af > 3) { fail("cell %d face %d: adjacent face %ld", (int)c, (int)f, (long)af); return; }
                if (M.getAdjCell(ac, af) != c || M.getAdjFace(ac, af) != f) fail("cell %d face %d -> cell %d face %d, which lists cell %ld face %ld", (int)c, (int)f, (int)ac, (int)af, (long)M.getAdjCell(ac, af), (long)M.getAdjFace(ac, af));
                if (M.getSide(c, f) != TychoMesh::NOT_BOUNDARY_FACE) fail("interior face has a side number");
                for (UINT fv = 0; fv < 3; fv++) {
                    UINT mine = M.getCellNode(c, M.getFaceToCellVrtx(c, f, fv)), nv = M.getNeighborVrtx(c, f, fv);
                    if (nv > 3 || M.getCellNode(ac, nv) != mine) fail("cell %d face %d: neighbour vertex %ld is not the same mesh node", (int)c, (int)f, (long)nv);
                    if (M.getCellNode(ac, M.getFaceToCellVrtx(ac, af, fv)) != mine) fail("cell %d face %d: the two sides number the face vertices differently", (int)c, (int)f);
                }
            } else {
                nSides++;
                UINT s = M.getSide(c, f);
                if (ac != TychoMesh::BOUNDARY_FACE) fail("boundary face has an adjacent cell");
                if (s >= M.getNSides() || !used.insert(s).second) { fail("side number %ld of cell %d face %d", (long)s, (int)c, (int)f); return; }
                if (M.getSideCell(s) != c) fail("cell of side %d", (int)s);
                if (M.getLGSide(s) != gf) fail("side %d has global face %ld instead of %ld", (int)s, (long)M.getLGSide(s), (long)gf);
                if (M.getGLSide(gf) != s) fail("global face %ld is side %ld instead of %ld", (long)gf, (long)M.getGLSide(gf), (long)s);
            }
        }
    }
    if (nSides != M.getNSides()) fail("%d sides instead of %d", (int)M.getNSides(), (int)nSides);
    Sides S;
    // across ranks: cell and face of the neighbour, face-vertex order
    std::vector<double> mine;
    for (UINT s = 0; s < S.face.size(); s++) {
        for (double x : S.key[s]) mine.push_back(x);
        for (UINT fv = 0; fv < 3; fv++) mine.push_back(S.vpos(s, fv));
        mine.push_back((double)M.getSideCell(s)); mine.push_back((double)S.face[s]); mine.push_back(rank_);
    }
    std::vector<double> all = gatherAll(mine);
    std::map<std::vector<double>, std::vector<size_t>> m;
    for (size_t i = 0; i < all.size() / 15; i++) m[std::vector<double>(&all[i * 15], &all[i * 15] + 9)].push_back(i);
    for (UINT s = 0; s < S.face.size(); s++) if (S.nbrRank[s] >= 0) for (size_t i : m[std::vector<double>(&mine[s * 15], &mine[s * 15] + 9)]) {
        if ((int)all[i * 15 + 14] == rank_) continue;
        cases++;
        for (int k = 9; k < 12; k++) if (all[i * 15 + k] != mine[s * 15 + k]) fail("side %d: the two ranks number the face vertices differently", (int)s);
        if (M.getAdjCellFromSide(s) != (UINT)all[i * 15 + 12] || M.getAdjFaceFromSide(s) != (UINT)all[i * 15 + 13])
            fail("side %d: neighbour cell %ld face %ld instead of %d %d", (int)s, (long)M.getAdjCellFromSide(s), (long)M.getAdjFaceFromSide(s), (int)all[i * 15 + 12], (int)all[i * 15 + 13]);
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    int n = thorough ? 40 : 10;
    for (int it = 0; it < n; it++) {
        bool flat = it % 3 == 0;      // unjittered: coordinates tie in one or two components
        Tets m = box(1 + rnd(3), 1 + rnd(3), 1 + rnd(3), 100.0, flat ? 0.0 : 0.3);
        if (m.t.size() < (size_t)size_) continue;
        auto part = partition(m, size_, it % 2 ? Random : Slabs);
        SerialMesh sm = serial(m);
        tweak = it % 4 ? scramble : std::function<void(ParallelMesh &)>();
        setup(m, part, size_, 2, 1, 1, 1, 1, 1, 1, &sm);
        checkRank(sm, part);
        if (it == 0) sample("mesh of %d cells on %d ranks, %d sides on rank 0", (int)m.t.size(), size_, (int)g_tychoMesh->getNSides());
    }
    return finish();
}
