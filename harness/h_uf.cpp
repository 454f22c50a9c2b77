// DisjointSet against an explicit partition.
#include "pool.hpp"
#include <pthread.h>
#include <sys/mman.h>
using namespace vh;

struct Part { Vec<int> lab; int n; Part() : n(0) {} };

template <class A>
struct UfDrv {
    typedef dstruct::DisjointSet<A> X;
    enum { MAXK = 3 };
    int K; X *o[MAXK]; Part m[MAXK]; Chooser &ch; unsigned groups; int N;
    UfDrv(Chooser &c, int k, int n, unsigned g) : K(k), ch(c), groups(g), N(n) { for (int i = 0; i < MAXK; i++) o[i] = 0; for (int i = 0; i < K; i++) create(i, N); }
    void create(int i, int n) { void *p = malloc(sizeof(X)); X *r = 0; LIB(r = new (p) X(n)); o[i] = r; m[i].n = n; m[i].lab.resize(n); for (int k = 0; k < n; k++) m[i].lab[k] = k; }
    void kill(int i) { if (!o[i]) return; X *p = o[i]; o[i] = 0; LIB(p->~X()); memset((void *)p, 0xEE, sizeof(X)); free(p); }
    ~UfDrv() { for (int i = 0; i < MAXK; i++) kill(i); }
    void join(Part &p, int a, int b) { int la = p.lab[a], lb = p.lab[b]; if (la == lb) return; for (int k = 0; k < p.n; k++) if (p.lab[k] == lb) p.lab[k] = la; }
    void verify(int i, bool full) {
        InLib in;
        X &x = *o[i]; Part &p = m[i];
        EXPECT_EQ(C_MODEL, "size", x.size(), p.n);
        EXPECT(C_MODEL, "capacity", x.capacity() >= x.size(), "capacity below size");
        EXPECT_EQ(C_MODEL, "empty", x.empty(), p.n == 0);
        if (!p.n) return;
        if (full) {
            Seq u(p.lab.begin(), p.lab.end()); std::sort(u.begin(), u.end()); int sets = (int)(std::unique(u.begin(), u.end()) - u.begin());
            EXPECT_EQ(C_MODEL, "count", x.count(), sets);
            Vec<int> rep(p.n, -1);
            for (int k = 0; k < p.n; k++) {
                int r = x.find(k);
                EXPECT(C_MODEL, "find-range", r >= 0 && r < p.n, "find(%d) is %d", k, r);
                EXPECT(C_MODEL, "find-member", p.lab[r] == p.lab[k], "find(%d) is %d, which is in another set", k, r);
                if (rep[p.lab[k]] < 0) rep[p.lab[k]] = r;
                EXPECT(C_MODEL, "find-same", rep[p.lab[k]] == r, "find gives two representatives, %d and %d, for one set", rep[p.lab[k]], r);
            }
            EXPECT_EQ(C_MODEL, "count", x.count(), sets);
            Vec<int> c(p.n, 0); for (int k = 0; k < p.n; k++) c[p.lab[k]]++;
            Seq sz; for (int k = 0; k < p.n; k++) if (c[k]) sz.push_back(c[k]); std::sort(sz.begin(), sz.end());
            uint64_t h = p.n; for (size_t k = 0; k < sz.size(); k++) h = mix(h, sz[k]); note_state(h);
        } else {
            int a = (int)(G().ops * 31 % p.n), b = (int)(G().ops * 17 % p.n);
            EXPECT_EQ(C_MODEL, "connected", x.connected(a, b), p.lab[a] == p.lab[b]);
        }
    }
    void step() {
        int i = (int)ch.choose(K), j = (int)ch.choose(K); unsigned r = ch.choose(100); X &x = *o[i]; Part &p = m[i];
        if (!p.n) { op("recreate", i); kill(i); create(i, N); return; }
        int a = (int)ch.choose(p.n), b = (int)ch.choose(p.n);
        if ((groups & OG_COPY) && r < 8) {
            if (ch.choose(2)) { op("copy_assign", i, j); LIB(x = *(const X *)o[j]); p = m[j]; }
            else { op("copy_construct", i, j); X *n = (X *)malloc(sizeof(X)); LIB(new ((void *)n) X(*(const X *)o[j])); Part q = m[j]; kill(i); o[i] = n; m[i] = q; }
            removal(); verify(i, true); verify(j, true); return;
        }
        if ((groups & OG_MOVE) && r >= 8 && r < 14) {
            if (ch.choose(2)) { op("move_assign", i, j); LIB(x = dstruct::move(*o[j])); if (i != j) { p = m[j]; m[j] = Part(); } }
            else { op("move_construct", i, j); X *n = (X *)malloc(sizeof(X)); LIB(new ((void *)n) X(dstruct::move(*o[j]))); Part q = m[j]; m[j] = Part(); verify(j, true); kill(i); o[i] = n; m[i] = q; }
            removal(); verify(i, true); verify(j, true); return;
        }
        if (r < 60) { op("connect", i, a, b); if (ch.choose(4)) LIB(x.connect(a, b)); else LIB(x.union_set(x.find(a), x.find(b))); join(p, a, b); removal(); }
        else if (r < 66) { op("connect_self", i, a); LIB(x.connect(a, a)); }
        else if (r < 80) { op("connected", i, a, b); bool c; LIB(c = x.connected(a, b)); EXPECT_EQ(C_MODEL, "connected", c, p.lab[a] == p.lab[b]); }
        else if (r < 96) { op("find", i, a); int f; LIB(f = x.find(a)); EXPECT(C_MODEL, "find-member", f >= 0 && f < p.n && p.lab[f] == p.lab[a], "find(%d) is %d, which is in another set", a, f); }
        else { op("recreate", i); kill(i); create(i, N); }
        verify(i, ch.choose(6) == 0);
    }
};
template <class A> static void rnd(Chooser &ch) {
    UfDrv<A> d(ch, 1 + ch.choose(3), 1 + (int)ch.choose(ch.choose(3) ? 8 : 60), O().opmask);
    int n = 10 + (int)ch.choose(60);
    while (n--) d.step();
    for (int i = 0; i < d.K; i++) d.verify(i, true);
}
template <class A, int D> static void exh(Chooser &ch) {
    UfDrv<A> d(ch, 1, 4, OG_BASE);
    int n = D + O().depth_bonus;
    while (n--) {
        int a = (int)ch.choose(4), b = (int)ch.choose(4); op("connect", 0, a, b); LIB(d.o[0]->connect(a, b)); d.join(d.m[0], a, b); removal();
        if (ch.unseen()) d.verify(0, true);
    }
}
// large sets built in orders which form long chains unless unions are balanced; small stack
static const size_t STACK_MAX = 40 << 10;
struct Big_ { int shape; int n; uint64_t seed; };
static void *run_big(void *p) {
    typedef VH_ALLOC A;
    Big_ &b = *(Big_ *)p; Rng r(b.seed); int n = b.n;
    dstruct::DisjointSet<A> x(n);
    int sets = n;
    switch (b.shape) {
    case 0: for (int i = 0; i + 1 < n; i++) { x.connect(i, i + 1); sets--; } break;
    case 1: for (int i = n - 1; i > 0; i--) { x.connect(i, i - 1); sets--; } break;
    case 2: for (int i = 0; i + 1 < n; i++) { x.union_set(x.find(i + 1), x.find(i)); sets--; } break;
    case 3: for (int i = n - 1; i > 0; i--) { x.union_set(x.find(i - 1), x.find(i)); sets--; } break;
    case 4: for (int w = 1; w < n; w *= 2) for (int i = 0; i + w < n; i += 2 * w) { x.connect(i + (int)r.below(w), i + w + (int)r.below((unsigned)(n - i - w < w ? n - i - w : w))); sets--; } break;
    case 5: for (int i = 1; i < n; i++) { x.connect((int)r.below(i), i); sets--; } break;
    case 6: for (int i = 1; i < n; i++) { x.connect(i, 0); sets--; } break;
    default: {                                      // equal blocks, then one block after the other, representative to representative
        int w = 1 << (b.shape - 7) / 2, acc = 0; bool fl = b.shape & 1;
        for (int s = 0; s + w <= n; s += w) {
            for (int k = 1; k < w; k *= 2) for (int i = s; i + k < s + w; i += 2 * k) { x.union_set(x.find(i), x.find(i + k)); sets--; }
            int rep = x.find(s);
            if (s) { if (fl) x.union_set(acc, rep); else x.union_set(rep, acc); sets--; }
            acc = x.find(rep);
        }
        for (int i = n / w * w; i < n; i++) { x.union_set(x.find(i), acc); acc = x.find(i); sets--; }
    } }
    EXPECT_EQ(C_MODEL, "count", x.count(), sets);
    int root = x.find(n / 2), lo = (int)r.below(n);
    for (int i = lo; i < n; i++) EXPECT(C_MODEL, "find-same", x.find(i) == root, "elements 0 and %d are connected but have different representatives", i);
    for (int i = 0; i < lo; i++) EXPECT(C_MODEL, "find-same", x.find(i) == root, "elements 0 and %d are connected but have different representatives", i);
    EXPECT_EQ(C_MODEL, "count", x.count(), 1);
    G().ops += 2 * n;
    return 0;
}
static void big(Chooser &ch) {
    Big_ b = { (int)ch.choose(31), 60000 + (int)ch.choose(60000), ch.rng.next() };
    if (b.shape >= 7) { b.n *= 1 + (int)ch.choose(12); if (b.shape < 15) b.n /= 4; }
    op("build", b.shape, b.n); op("drain"); removal(); op("end"); note_size(b.n); note_state(b.shape);
    // the thread's stack is painted, so that what it used can be read off afterwards
    const size_t SZ = 1 << 20; static unsigned char *stk = (unsigned char *)mmap(0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(stk, 0x5C, SZ);
    pthread_attr_t at; pthread_attr_init(&at); if (pthread_attr_setstack(&at, stk, SZ)) { fprintf(stderr, "harness: no stack\n"); _Exit(3); }
    pthread_t t; if (pthread_create(&t, &at, run_big, &b)) { fprintf(stderr, "harness: no thread\n"); _Exit(3); }
    pthread_join(t, 0);
    size_t k = 0; while (k < SZ && stk[k] == 0x5C) k++;
    EXPECT(G().enabled & C_MODEL ? C_MODEL : C_COST, "stack", SZ - k <= STACK_MAX, "%d elements need %zu bytes of call stack", b.n, SZ - k);
}
int main(int argc, char **argv) {
    typedef VH_ALLOC A;
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
    add("random", "ufset", 8000, rnd<A>);
    add("random", "ufset/up", 1500, rnd<A>, VA_UP);
    add("exhaustive", "ufset/exhaustive", 0, exh<A, 4>);
    add("large", "ufset/large", 60, big);
    return vh_main(argc, argv);
}
