// StaticMemAllocator against an interval model of the pool: blocks (alignment, bounds,
// disjointness, contents), accounting, and merging.
#include "pool.hpp"
// The oracle here is the list of blocks handed out, which stays right whatever the accounting says: a deviation of a
// class which is not judged in this run does not end the history (one without which the blocks make no sense does).
#undef EXPECT
#define EXPECT(cls, key, cond, ...) do { vh::G().checks++; if (!(cond) && ((cls) == C_SMA_BLK || (vh::G().enabled & (cls)))) vh::viol(cls, key, __VA_ARGS__); } while (0)
#define EXPECT_STOP(cls, key, cond, ...) do { vh::G().checks++; if (!(cond)) vh::viol(cls, key, __VA_ARGS__); } while (0)
#undef EXPECT_EQ
#define EXPECT_EQ(cls, key, got, want) do { vh::G().checks++; long long g__ = (long long)(got), w__ = (long long)(want); if (g__ != w__ && (vh::G().enabled & (cls))) vh::viol(cls, key, "%s: got %lld, want %lld", #got, g__, w__); } while (0)
using namespace vh;

// `Lim`: the size up to which blocks are kept in size classes (for choosing interesting sizes only)
template <int MEM, int LIM> struct Sma {
    typedef dstruct::StaticMemAllocator<MEM, LIM> A;
    struct Blk { int off, bytes, round; unsigned char pat; char *p; };
    static char *&base() { static char *b = 0; return b; }
    Chooser &ch; Vec<Blk> live; int used; unsigned char pat; bool dead;

    static int up(int b) { return (b + 7) / 8 * 8; }
    Sma(Chooser &c) : ch(c), used(0), pat(1), dead(false) {
        
        op("open", MEM, LIM);
        LIB(A::memory_merge());
        EXPECT_EQ(C_SMA_ACC, "initial-free", A::free_mem_size(), MEM);
        EXPECT_EQ(C_SMA_MRG, "initial-max", A::max_free_mblock_size(), MEM);
        void *p; LIB(p = A::allocate(MEM));
        EXPECT_STOP(C_SMA_ACC, "whole-pool", p != 0, "the whole free pool of %d bytes cannot be allocated", MEM);
        if (!base()) base() = (char *)p;
        EXPECT(C_SMA_BLK, "whole-pool", p == base(), "the whole pool starts at another address than before");
        memset(p, 0x3C, MEM);
        LIB(A::deallocate(p, MEM));
    }
    // gaps between live blocks
    int max_gap() {
        std::sort(live.begin(), live.end(), [](const Blk &a, const Blk &b) { return a.off < b.off; });
        int at = 0, best = 0;
        for (size_t i = 0; i < live.size(); i++) { if (live[i].off - at > best) best = live[i].off - at; at = live[i].off + live[i].round; }
        if (MEM - at > best) best = MEM - at;
        return best;
    }
    int gaps() { int at = 0, n = 0; max_gap(); for (size_t i = 0; i < live.size(); i++) { n += live[i].off > at; at = live[i].off + live[i].round; } return n + (MEM > at); }
    int free_bytes() { return MEM - used; }
    void observe() {
        int f, mx; LIB(f = A::free_mem_size()); EXPECT_EQ(C_SMA_ACC, "free_mem_size", f, free_bytes());
        LIB(mx = A::max_free_mblock_size());
        int g = max_gap();
        EXPECT(C_SMA_ACC, "max-too-big", mx <= g, "max_free_mblock_size reports %d, the largest free range has %d bytes", mx, g);
        EXPECT(C_SMA_ACC, "max-zero", mx > 0 || f == 0, "max_free_mblock_size reports 0 while %d bytes are free", f);
        EXPECT(C_SMA_ACC, "max-negative", mx >= 0 && mx % 8 == 0, "max_free_mblock_size reports %d", mx);
    }
    void contents(const Blk &b) {
        for (int i = 0; i < b.bytes; i++) if ((unsigned char)b.p[i] != (unsigned char)(b.pat + i * 7)) {
            soft(C_SMA_BLK, "contents", "byte %d of a live block of %d bytes at offset %d changed", i, b.bytes, b.off); break; }
        G().checks++;
    }
    void all_contents() { for (size_t i = 0; i < live.size(); i++) contents(live[i]); }
    void alloc(int b) {
        op("allocate", b);
        int mx, f0; LIB(mx = A::max_free_mblock_size(); f0 = A::free_mem_size());
        void *p; LIB(p = A::allocate(b));
        bool valid = b > 0 && b <= MEM;
        bool want = valid && up(b) <= mx;
        if (!p) {
            EXPECT(C_SMA_ACC, "allocate-fails", !want, "allocate(%d) fails although a block of %d bytes is free", b, mx);
            int f1, m1; LIB(f1 = A::free_mem_size(); m1 = A::max_free_mblock_size());
            EXPECT(C_SMA_ACC, "failed-allocate", f1 == f0 && m1 == mx, "a failed allocate(%d) changed the pool: free %d -> %d, largest %d -> %d", b, f0, f1, mx, m1);
            return;
        }
        EXPECT_STOP(C_SMA_ACC, "allocate-succeeds", valid, "allocate(%d) returns a block", b);
        EXPECT(C_SMA_ACC, "allocate-unfit", up(b) <= mx, "allocate(%d) succeeds although the largest free block was reported to have %d bytes", b, mx);
        long off = (char *)p - base(); int r = up(b);
        EXPECT(C_SMA_BLK, "alignment", ((uintptr_t)p & 7) == 0, "allocate(%d) returns a block which is not 8 byte aligned", b);
        EXPECT(C_SMA_BLK, "inside", off >= 0 && off + r <= MEM, "allocate(%d) returns a block at offset %ld of a pool of %d bytes", b, off, MEM);
        for (size_t i = 0; i < live.size(); i++)
            EXPECT(C_SMA_BLK, "overlap", off + r <= live[i].off || off >= live[i].off + live[i].round, "allocate(%d) returns [%ld,%ld), a live block is [%d,%d)", b, off, off + r, live[i].off, live[i].off + live[i].round);
        Blk k = { (int)off, b, r, pat, (char *)p }; pat = (unsigned char)(pat * 5 + 3);
        for (int i = 0; i < b; i++) k.p[i] = (char)(k.pat + i * 7);
        live.push_back(k); used += r;
        note_size(live.size());
    }
    void freeb(size_t i) {
        Blk k = live[i]; op("deallocate", k.off, k.bytes); removal();
        contents(k);
        live.erase(live.begin() + i); used -= k.round;
        bool ok; LIB(ok = A::deallocate(k.p, k.bytes));
        EXPECT(C_SMA_ACC, "deallocate", ok, "deallocate of a live block of %d bytes reports failure", k.bytes);
    }
    void merge() {
        op("merge"); LIB(A::memory_merge());
        int mx, g = max_gap(); LIB(mx = A::max_free_mblock_size());
        EXPECT(C_SMA_MRG, "merge", mx == g, "after memory_merge the largest free block has %d bytes, the largest free range %d", mx, g);
        EXPECT_EQ(C_SMA_ACC, "merge-free", A::free_mem_size(), free_bytes());
        uint64_t h = 11; for (size_t i = 0; i < live.size(); i++) h = mix(mix(h, live[i].off), live[i].round); note_state(h);
        if (ch.ex ? live.size() % 2 : ch.choose(5) == 0) refill();
    }
    // merged means that every free range, not only the largest, can be had as a whole
    void refill() {
        op("refill"); Vec<Blk> got; int n0 = (int)live.size();
        for (int g; (g = max_gap()) > 0 && (int)live.size() < n0 + 200;) {
            void *p; LIB(p = A::allocate(g)); long off = (char *)p - base();
            EXPECT_STOP(C_SMA_MRG, "merge-all", p != 0, "after memory_merge a free range of %d bytes cannot be allocated as a whole", g);
            EXPECT(C_SMA_BLK, "inside", off >= 0 && off + g <= MEM, "allocate(%d) returns a block at offset %ld of a pool of %d bytes", g, off, MEM);
            for (size_t i = 0; i < live.size(); i++) EXPECT(C_SMA_BLK, "overlap", off + g <= live[i].off || off >= live[i].off + live[i].round, "allocate(%d) returns [%ld,%ld), a live block is [%d,%d)", g, off, off + g, live[i].off, live[i].off + live[i].round);
            Blk k = { (int)off, g, g, 0, (char *)p }; for (int i = 0; i < g; i += 8) k.p[i] = (char)(i * 7); live.push_back(k); got.push_back(k); used += g;
        }
        EXPECT_EQ(C_SMA_ACC, "refill-free", A::free_mem_size(), free_bytes());
        for (size_t i = 0; i < got.size(); i++) { for (size_t j = 0; j < live.size(); j++) if (live[j].off == got[i].off) { live.erase(live.begin() + j); break; } used -= got[i].round; LIB(A::deallocate(got[i].p, got[i].bytes)); }
        EXPECT_EQ(C_SMA_ACC, "refill-free", A::free_mem_size(), free_bytes()); removal();
    }
    void invalid() {
        int bad[] = { 0, -1, -8, MEM + 1, MEM + 8, MEM * 2, 2147483647, -2147483647 - 1 };
        if (ch.choose(3) == 0) {
            op("deallocate_invalid"); int f0, m0, f1, m1; LIB(f0 = A::free_mem_size(); m0 = A::max_free_mblock_size());
            bool r1, r2 = false; LIB(r1 = A::deallocate(0, 8));
            if (!live.empty()) { LIB(r2 = A::deallocate(live[0].p, -(int)ch.choose(9))); }
            LIB(f1 = A::free_mem_size(); m1 = A::max_free_mblock_size());
            EXPECT(C_SMA_ACC, "deallocate-invalid", !r1 && !r2, "deallocate of nothing reports success");
            EXPECT(C_SMA_ACC, "deallocate-invalid", f0 == f1 && m0 == m1, "deallocate of nothing changed the pool");
        } else alloc(bad[ch.choose(8)]);
    }
    int size() {
        int mx; LIB(mx = A::max_free_mblock_size()); int f = free_bytes();
        switch (ch.choose(12)) {
        case 0: case 1: return 1 + (int)ch.choose(8);
        case 2: case 3: case 4: return 1 + (int)ch.choose(LIM < MEM ? LIM : MEM);
        case 5: return LIM - 9 + (int)ch.choose(28);
        case 6: return 1 + (int)ch.choose(LIM * 4);
        case 7: return 1 + (int)ch.choose(MEM / 2);
        case 8: return mx - (int)ch.choose(10);
        case 9: return mx + (int)ch.choose(10) - 2;
        case 10: return f - (int)ch.choose(20);
        default: return 8 * (1 + (int)ch.choose(4));
        }
    }
    void check() { observe(); if (ch.choose(8) == 0) { all_contents(); op("dump"); LIB(A::dump()); } }
    void close() {
        // give everything back in one of several orders; merged, the pool is whole again
        unsigned ord = ch.ex ? 1 : ch.choose(4); all_contents();
        max_gap();
        while (!live.empty()) freeb(ord == 0 ? 0 : ord == 1 ? live.size() - 1 : ord == 2 ? live.size() / 2 : ch.choose((unsigned)live.size()));
        observe(); merge();
        LIB(A::dump());
        EXPECT_EQ(C_SMA_ACC, "final-free", A::free_mem_size(), MEM);
        EXPECT_EQ(C_SMA_MRG, "final-max", A::max_free_mblock_size(), MEM);
        dead = true;
    }
    ~Sma() { // after a violation nobody asked for: put the shared pool back into a usable state as well as possible
        if (dead) return;
        for (size_t i = 0; i < live.size(); i++) A::deallocate(live[i].p, live[i].bytes);
        A::memory_merge();
    }
};
template <int MEM, int LIM> static void rnd(Chooser &ch) {
    Sma<MEM, LIM> s(ch); Phase ph;
    unsigned style = ch.choose(5); int cap = 2 + (int)ch.choose(MEM >= 512 ? 80 : 12);
    bool merges = ch.choose(3) != 0;
    int n = 20 + (int)ch.choose(180);
    int fixed = 1 + (int)ch.choose(LIM + 40 < MEM / 3 ? LIM + 40 : MEM / 3);
    while (n--) {
        unsigned r = ch.choose(100);
        if (r < 6) { if (merges) s.merge(); }
        else if (r < 9) s.invalid();
        else if (s.live.empty() || (ph.want_grow(ch, s.live.size(), cap))) s.alloc(style == 1 ? fixed : style == 2 ? 8 * (1 + (int)ch.choose(3)) : s.size());
        else {
            size_t k = s.live.size(), i;
            switch (style == 0 ? ch.choose(4) : style) { case 0: i = k - 1; break; case 1: i = 0; break; case 2: s.max_gap(); i = ch.choose((unsigned)k); break; default: i = ch.choose((unsigned)k); }
            s.freeb(i);
        }
        s.check();
    }
    s.close();
}
// carve the pool into many blocks, free them in a pattern, merge at random moments
template <int MEM, int LIM> static void carve(Chooser &ch) {
    Sma<MEM, LIM> s(ch);
    int lo = 1 + (int)ch.choose(16), span = 1 + (int)ch.choose(LIM * 2);
    for (int tries = 0; tries < 3000; tries++) { int b = lo + (int)ch.choose(span), before = (int)s.live.size(); s.alloc(b); if ((int)s.live.size() == before && ch.choose(4) == 0) break; if (tries % 16 == 0) s.check(); }
    s.observe();
    unsigned pat = ch.choose(4), step = 2 + ch.choose(3);
    s.max_gap();
    size_t target = s.live.size() / (1 + ch.choose(4));
    size_t pos = 0;
    while (s.live.size() > target) {
        size_t k = s.live.size();
        size_t i = pat == 0 ? (pos += step) % k : pat == 1 ? 0 : pat == 2 ? k - 1 : ch.choose((unsigned)k);
        s.freeb(i);
        if (ch.choose(10) == 0) s.merge();
        if (ch.choose(8) == 0) s.check();
    }
    s.merge(); s.check();
    for (int k = 0; k < 10; k++) { s.alloc(s.size()); s.check(); }
    s.close();
}
// many free ranges which cannot be joined, the largest of them anywhere
template <int MEM, int LIM> static void comb(Chooser &ch) {
    Sma<MEM, LIM> s(ch);
    int lo = LIM + 1 + (int)ch.choose(40), big = lo * (2 + (int)ch.choose(4)), at = (int)ch.choose(160), tail = (int)ch.choose(3) ? 0 : MEM / 4, n = 0;
    for (;; n++) {
        int b = n == at ? big : lo + (int)ch.choose(16), before = (int)s.live.size();
        if (s.used + b + 8 > MEM - tail || n > 300) break;
        s.alloc(b); if ((int)s.live.size() == before) break;
    }
    s.check(); op("comb", n, at);
    // release every second block; in address order, the other way round or at random
    s.max_gap(); Vec<int> offs; for (size_t i = (size_t)(at & 1); i < s.live.size(); i += 2) offs.push_back(s.live[i].off);
    unsigned ord = ch.choose(3); if (ord == 0) std::reverse(offs.begin(), offs.end());
    if (ord == 1) for (size_t i = offs.size(); i > 1; i--) { size_t j = ch.choose((unsigned)i); int t = offs[i - 1]; offs[i - 1] = offs[j]; offs[j] = t; }
    for (size_t q = 0; q < offs.size(); q++) for (size_t i = 0; i < s.live.size(); i++) if (s.live[i].off == offs[q]) { s.freeb(i); if (ch.choose(16) == 0) s.observe(); break; }
    s.check();
    if (ch.choose(2)) s.merge();
    for (int k = 0; k < 12; k++) { s.alloc(k < 4 ? s.max_gap() - (int)ch.choose(9) : s.size()); s.check(); if (ch.choose(4) == 0) s.merge(); }
    s.close();
}
template <int MEM, int LIM> static void exh(Chooser &ch) {
    Sma<MEM, LIM> s(ch);
    static const int sizes[] = { 8, 16, 20, 40 };
    int n = 7 + O().depth_bonus;
    while (n--) {
        unsigned k = (unsigned)s.live.size(), r = ch.choose(5 + k);
        if (r < 4) s.alloc(sizes[r]); else if (r == 4) { s.merge(); } else s.freeb(r - 5);
        s.observe();
    }
    s.close();
}
int main(int argc, char **argv) {
    watch_malloc();
    add("random", "sma<1024,128>", 3000, rnd<1024, 128>);
    add("random", "sma<10240,128>", 1500, rnd<10240, 128>);
    add("random", "sma<64,16>", 3000, rnd<64, 16>);
    add("random", "sma<256,32>", 3000, rnd<256, 32>);
    add("random", "sma<1000,100>", 2000, rnd<1000, 100>);
    add("random", "sma<4096,8>", 1500, rnd<4096, 8>);
    add("random", "sma<64,128>", 1500, rnd<64, 128>);
    add("random", "sma<1048576,128>", 600, rnd<1048576, 128>);
    add("random", "sma<16384,512>", 600, rnd<16384, 512>);
    add("carve", "sma<65536,128>/carve", 12, carve<65536, 128>);
    add("carve", "sma<65536,128>/comb", 30, comb<65536, 128>);
    add("carve", "sma<16384,64>/comb", 60, comb<16384, 64>);
    add("carve", "sma<4096,8>/comb", 120, comb<4096, 8>);
    add("carve", "sma<2048,128>/carve", 900, carve<2048, 128>);
    add("carve", "sma<8192,64>/carve", 200, carve<8192, 64>);
    add("carve", "sma<512,16>/carve", 1500, carve<512, 16>);
    add("exhaustive", "sma<96,24>/exhaustive", 0, exh<96, 24>);
    add("exhaustive", "sma<104,8>/exhaustive", 0, exh<104, 8>);
    return vh_main(argc, argv);
}
