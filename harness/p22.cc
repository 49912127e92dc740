// P22: communication and file helpers
#include "h.hh"
#include "Comm.hh"
#include <fstream>
#include <iterator>
using namespace H;

static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static double dval(uint64_t seed, int r)
{
    uint64_t h = mix(seed * 1000 + r);
    switch (seed % 4) {
        case 0: return (double)(h % 2000) / 1000 - 1;
        case 1: return -1e-300 * (double)(1 + h % 1000);
        case 2: return ((double)(h % 2000) - 1000) * 1e300;
        default: return -1.0 - (double)(h % 100);
    }
}
static uint64_t uval(uint64_t seed, int r) { uint64_t h = mix(seed * 77 + r); switch (seed % 3) { case 0: return h % 100; case 1: return (h >> 3); default: return ((uint64_t)1 << 62) + h % 5; } }

int main(int argc, char **argv)
{
    init(argc, argv);
    std::string fn = tmpfile("io.bin");
    if (Comm::rank() != rank_ || Comm::rank(MPI_COMM_WORLD) != rank_ || Comm::numRanks() != size_) fail("rank or number of ranks");
    for (int it = 0; it < (thorough ? 400 : 60); it++) {
        uint64_t seed = 100 + it;
        long double sum = 0, mag = 0;
        double mx = -INFINITY;
        uint64_t us = 0, um = 0;
        for (int r = 0; r < size_; r++) { double d = dval(seed, r); sum += d; mag += fabs(d); mx = std::max(mx, d); us += uval(seed, r); um = std::max(um, uval(seed, r)); }
        double x = dval(seed, rank_);
        cases++;
        Comm::gsum(x);
        if (!(fabsl(x - sum) <= 1e-14L * mag)) fail("sum %g, expected %g", x, (double)sum);
        x = dval(seed, rank_);
        Comm::gmax(x);
        if (x != mx) fail("maximum %g, expected %g", x, mx);
        uint64_t u = uval(seed, rank_);
        Comm::gsum(u);
        if (u != us) fail("integer sum %llu, expected %llu", (unsigned long long)u, (unsigned long long)us);
        u = uval(seed, rank_);
        Comm::gmax(u);
        if (u != um) fail("integer maximum %llu, expected %llu", (unsigned long long)u, (unsigned long long)um);
        // on part of the ranks
        int color = mix(seed * 31 + rank_) % 2;
        MPI_Comm sub;
        MPI_Comm_split(MPI_COMM_WORLD, color, -rank_, &sub);
        double m2 = -INFINITY;
        int later = 0;
        for (int r = 0; r < size_; r++) if ((int)(mix(seed * 31 + r) % 2) == color) { m2 = std::max(m2, dval(seed, r)); later += r > rank_; }
        x = dval(seed, rank_);
        Comm::gmax(x, sub);
        if (x != m2) fail("maximum over a communicator %g, expected %g", x, m2);
        if (Comm::rank(sub) != later) fail("rank in a communicator");
        MPI_Comm_free(&sub);
        Comm::barrier();
        // point to point, around the ring
        if (size_ > 1) {
            int to = (rank_ + 1) % size_, from = (rank_ + size_ - 1) % size_;
            size_t n = 1 + mix(seed) % 40;
            std::vector<UINT> a(n), b(n + 3, 5), b2(n);
            std::vector<double> d(n), e(n + 3, 5.0);
            for (size_t i = 0; i < n; i++) { a[i] = mix(seed * 991 + i + 1000 * rank_); d[i] = dval(seed + i, rank_); }
            MPI_Request q[4];
            std::vector<UINT> a2 = a;
            for (auto &w : a2) w = ~w;
            Comm::iSendUIntVector(a, to, 11, q[0]);
            Comm::iSendUIntVector(a2, to, 12, q[1]);
            Comm::iSendDoubleVector(d, to, 13, q[2]);
            Comm::recvUIntVector(b2, from, 12);      // in another order than sent
            b.resize(n);
            Comm::recvDoubleVector(e, from, 13);
            Comm::recvUIntVector(b, from, 11);
            MPI_Waitall(3, q, MPI_STATUSES_IGNORE);
            for (size_t i = 0; i < n; i++) {
                UINT w = mix(seed * 991 + i + 1000 * from);
                if (b[i] != w || b2[i] != ~w) { fail("integer vector element %zu differs from the one sent", i); break; }
                if (e[i] != dval(seed + i, from)) { fail("double vector element %zu differs from the one sent", i); break; }
            }
            if (e[n] != 5.0) fail("a receive writes more elements than were sent");
            UINT got = 1;
            if (rank_ == 0) { Comm::sendUInt(uval(seed, 0), to); Comm::recvUInt(got, from); Comm::sendUIntVector(a, to); Comm::recvUIntVector(b, from); }
            else { Comm::recvUInt(got, from); Comm::sendUInt(uval(seed, rank_), to); Comm::recvUIntVector(b, from); Comm::sendUIntVector(a, to); }
            if (got != uval(seed, from)) fail("integer %llu received, %llu sent", (unsigned long long)got, (unsigned long long)uval(seed, from));
            for (size_t i = 0; i < n; i++) if (b[i] != mix(seed * 991 + i + 1000 * from)) { fail("blocking integer vector element %zu", i); break; }
        }
        // files: every rank writes its blocks in a shuffled order
        if (it % 4) continue;
        size_t blocks = 3 * size_;
        std::vector<size_t> len(blocks), off(blocks + 1, 0);
        for (size_t i = 0; i < blocks; i++) { len[i] = 1 + mix(seed * 7 + i) % 9; off[i + 1] = off[i] + len[i]; }
        if (it % 8 == 0) { if (rank_ == 0) { std::ofstream o(fn, std::ios::binary); o << std::string(off[blocks] * 8 + 100, 'z'); } MPI_Barrier(MPI_COMM_WORLD); }
        MPI_File f;
        Comm::openFileForWrite(fn, f);
        for (size_t k = 0; k < 3; k++) {
            size_t i = ((seed + k) % 3) * size_ + (rank_ + k) % size_;
            std::vector<double> v(len[i] + 1);
            for (size_t j = 0; j < v.size(); j++) v[j] = dval(seed + 13, (int)(off[i] + j));
            Comm::writeDoublesAt(f, off[i], v.data(), len[i]);
        }
        Comm::closeFile(f);
        MPI_Barrier(MPI_COMM_WORLD);
        Comm::openFileForRead(fn, f);
        MPI_Offset sz = 0;
        MPI_File_get_size(f, &sz);
        if ((size_t)sz != off[blocks] * 8) fail("the file has %d bytes, expected %d", (int)sz, (int)off[blocks] * 8);
        auto pattern = [&](size_t w) { double d = dval(seed + 13, (int)w); uint64_t b; memcpy(&b, &d, 8); return b; };
        size_t w = 0;
        MPI_Offset here = 0;
        for (int k = 0; k < 12; k++) {
            if (k % 3 == 0) { w = mix(seed + k) % off[blocks]; Comm::seek(f, 8 * w); here = 8 * w; }
            if (w >= off[blocks]) continue;
            int kind = mix(seed * 5 + k) % 3;
            int n = 1 + mix(seed * 9 + k) % std::min<size_t>(6, off[blocks] - w);
            if (kind == 0) { uint64_t v = 0; Comm::readUint64(f, v); if (v != pattern(w)) fail("word %zu of the file read wrongly", w); n = 1; }
            else if (kind == 1) { std::vector<uint64_t> v(n + 1, 3); Comm::readUint64(f, v.data(), n); for (int j = 0; j < n; j++) if (v[j] != pattern(w + j)) { fail("word %zu of the file read wrongly (array)", w + j); break; } if (v[n] != 3) fail("array read writes too much"); }
            else { std::vector<char> v(8 * n + 1, 'q'); Comm::readChars(f, v.data(), 8 * n); for (int j = 0; j < n; j++) { uint64_t p = pattern(w + j); if (memcmp(&p, &v[8 * j], 8)) { fail("word %zu of the file read wrongly (chars)", w + j); break; } } if (v[8 * n] != 'q') fail("char read writes too much"); }
            w += n; here += 8 * n;
            MPI_Offset pos;
            MPI_File_get_position(f, &pos);
            if (pos != here) fail("file position %d, expected %d", (int)pos, (int)here);
        }
        Comm::closeFile(f);
        MPI_Barrier(MPI_COMM_WORLD);
        if (rank_ == 0 && it % 8) unlink(fn.c_str());
        MPI_Barrier(MPI_COMM_WORLD);
    }
    sample("%d rounds on %d ranks", (int)cases, size_);
    return finish();
}
